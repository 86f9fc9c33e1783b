-------------------------------- MODULE Pool --------------------------------
(* The pool of ExifTool child processes and the life of the calls it serves    *)
(* (P01 - P04).  The state `s` is a record; Ok(s, e) says whether event e may   *)
(* happen in s, Step(s, e) what it does.  The same two operators drive the      *)
(* exhaustive model (MC_Pool) and the validation of recorded runs (PoolTrace).  *)
(*                                                                              *)
(* Events                                                                       *)
(*   call(id, kind)      a public method is called                              *)
(*   start(c)            a child process has started                            *)
(*   recv(c, id)         child c received the command of call id                *)
(*   rel(c, id, out)     child c answers with outcome out, carrying token tok    *)
(*   crash(c) / hang(c)  child c dies / never answers                           *)
(*   timeout(c)          the task timeout of c's task expired                   *)
(*   settle(id, st)      the promise of call id settled; toks, warns: tokens     *)
(*                       found in the result (or error) and in its warnings      *)
(*   close               closeChildProcesses()                                   *)
(*   end                 end() or dispose;  endok: its promise resolved          *)
(*   sample(..)          the public accessors                                    *)
(*   final(alive)        long after the end: children that still exist           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

OnceKinds == {"write", "edit", "delete"}
RetryKinds == {"read", "readRaw", "version", "binary", "buffer", "rewrite"}
Kinds == OnceKinds \cup RetryKinds
VoidKinds == {"binary", "rewrite"}                 \* nothing of the answer in the result
WarnKinds == {"read", "readRaw", "write", "edit", "delete"}

\* outcome of an attempt, given what the child answered
\*   good: the call resolves;  bad: the attempt failed;  last: final failure, no retry
\*   soft: failed, may or may not be tried again
Class(kind, out) ==
  CASE out \in {"ok", "warn"} -> "good"
    [] out = "missing" -> IF kind \in {"binary", "buffer"} THEN "last" ELSE "bad"
    [] OTHER -> IF kind = "buffer" THEN "soft" ELSE "bad"

Budget(s, kind) == IF kind \in OnceKinds THEN 1 ELSE 1 + s.cfg.retries

Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

InitState(cfg) == [cfg |-> cfg, calls |-> Empty, kids |-> Empty, ended |-> FALSE, endok |-> FALSE,
                   epoch |-> 0, timeouts |-> 0, closing |-> 0]

\* try.st: "serving", or a class, or "lost" (its child was abandoned), or "late" (answered, but the
\* timeout had expired: either outcome is possible)
Try(c) == [c |-> c, st |-> "serving", out |-> "", tok |-> ""]
Tries(s, id) == s.calls[id].tries
LastTry(s, id) == Tries(s, id)[Len(Tries(s, id))]
Abandoned(s, c) == s.kids[c].epoch < s.epoch \/ s.kids[c].st # "up" \/ s.ended
Serving(s) == {c \in DOMAIN s.kids : s.kids[c].busy # "" /\ ~Abandoned(s, c)}
OpenCalls(s) == {id \in DOMAIN s.calls : s.calls[id].st = "open"}

\* the position of the attempt that child c is serving
TryOn(s, c, id) == CHOOSE i \in 1..Len(Tries(s, id)) :
                      /\ Tries(s, id)[i].c = c
                      /\ \A j \in (i + 1)..Len(Tries(s, id)) : Tries(s, id)[j].c # c
SetTry(s, id, i, st, out, tok) ==
  [s EXCEPT !.calls[id].tries[i] = [@ EXCEPT !.st = st, !.out = out, !.tok = tok]]
\* the attempt of a child that failed or was abandoned
DropTry(s, c, st) ==
  IF s.kids[c].busy = "" THEN s
  ELSE LET id == s.kids[c].busy IN SetTry(s, id, TryOn(s, c, id), st, "", "")

\* closing the children abandons every attempt they serve; an answer that is on its way may
\* or may not be seen
AbandonAll(s) ==
  [s EXCEPT !.calls = [id \in DOMAIN @ |->
     IF @[id].st = "open" /\ @[id].tries # <<>>
     THEN [@[id] EXCEPT !.tries[Len(@[id].tries)].st =
             CASE @ = "serving" -> "lost" [] @ = "lost" -> "lost" [] OTHER -> "late"]
     ELSE @[id]]]

Failed(t) == t.st \in {"bad", "soft", "lost", "late"}

\* ---- which events are allowed: the properties that event e breaks in state s -------
If(cond, p) == IF cond THEN {} ELSE {p}

RecvBad(s, e) ==
  IF e.id \notin DOMAIN s.calls \/ e.c \notin DOMAIN s.kids THEN {"P02"}  \* a command nobody asked for
  ELSE LET k == s.kids[e.c]  a == s.calls[e.id]  off == Abandoned(s, e.c) IN
       If(k.st = "up", "P04")                                    \* never a broken child
  \cup If(k.busy = "", "P04")                                    \* one task at a time
  \cup If(k.served < s.cfg.maxTasks, "P04")                      \* recycled in time
  \cup If(off \/ Cardinality(Serving(s)) < s.cfg.maxProcs, "P04")
  \cup If(~a.late, "P03")                                        \* nothing is sent after the end
  \cup If(a.epoch <= k.epoch, "P03")                             \* fresh children after a close
  \cup If(Len(a.tries) < Budget(s, a.kind), "P02")               \* at most once / bounded
  \cup If(\A i \in 1..Len(a.tries) : Failed(a.tries[i]), "P02")  \* only after a failed attempt
  \cup If(off \/ a.st = "open", "P02")                           \* not after it has settled

MayReject(s, id) ==
  LET a == s.calls[id]  n == Len(a.tries) IN
  \/ a.late                                            \* called after the end
  \/ s.ended
  \/ n > 0 /\ a.tries[n].st \in {"last", "soft"}
  \/ n = Budget(s, a.kind)                              \* not before the retries are used up
  \/ s.cfg.lossy                                        \* an attempt may have been lost unseen
  \/ \E i \in 1..n : a.tries[i].st \in {"lost", "late"}

SettleBad(s, e) ==
  IF e.id \notin DOMAIN s.calls \/ s.calls[e.id].st # "open" \/ e.st \notin {"ok", "err"} THEN {"P01"}
  ELSE LET a == s.calls[e.id]  n == Len(a.tries)  last == LastTry(s, e.id) IN
  IF e.st = "ok"
  THEN IF a.late THEN {"P03"}
       ELSE IF n = 0 THEN {"P01"}
       ELSE   If(last.st \in {"good", "late"}, "P01")             \* by an answer that succeeded
         \cup If(e.toks = (IF a.kind \in VoidKinds THEN <<>> ELSE <<last.tok>>), "P01")   \* its own
         \cup If(e.warns = (IF last.out = "warn" /\ a.kind \in WarnKinds THEN <<last.tok>> ELSE <<>>), "P01")
  ELSE   If(\A i \in 1..n : Failed(a.tries[i]) \/ (i = n /\ a.tries[i].st = "last"), "P02")
    \cup If(MayReject(s, e.id),
           IF a.epoch > 0 /\ n = 0 THEN "P03" ELSE "P02")
    \cup If(\A i \in 1..Len(e.toks) : n > 0 /\ e.toks[i] = last.tok, "P01")   \* nothing of another attempt
    \cup If((n > 0 /\ last.out = "err" /\ last.st # "late" /\ ~s.ended /\ ~s.cfg.lossy)
             => e.toks = <<last.tok>>, "P02")                    \* the failure of the last attempt

\* every child is at work or every call is: the counts are determined
Steady(s) == /\ s.epoch = 0 /\ ~s.ended /\ ~s.cfg.lossy /\ ~s.cfg.health
             /\ \A c \in DOMAIN s.kids : s.kids[c].st = "up"
             /\ \A id \in OpenCalls(s) : \/ Tries(s, id) = <<>>
                                         \/ LastTry(s, id).st = "serving"
             /\ Cardinality(Serving(s)) = IF Cardinality(OpenCalls(s)) < s.cfg.maxProcs
                                          THEN Cardinality(OpenCalls(s)) ELSE s.cfg.maxProcs
SampleOk(s, e) ==
  /\ e.busy <= s.cfg.maxProcs
  /\ e.spawned >= Cardinality(DOMAIN s.kids)
  /\ e.pending >= 0 /\ e.pending <= Cardinality(OpenCalls(s))
  /\ Len(e.pids) <= s.cfg.maxProcs
  /\ s.ended => Len(e.pids) = 0 /\ e.pending = 0 /\ e.busy = 0
  /\ (e.exact /\ Steady(s)) =>
       /\ e.busy = Cardinality(Serving(s))
       /\ e.pending = Cardinality(OpenCalls(s)) - Cardinality(Serving(s))
       /\ \A c \in Serving(s) : \E i \in 1..Len(e.pids) : e.pids[i] = c
  /\ (e.quiet /\ OpenCalls(s) = {}) => e.busy = 0 /\ e.pending = 0
  /\ (e.quiet /\ Steady(s)) => e.spawned = Cardinality(DOMAIN s.kids)

FinalBad(s, e) ==
       If(OpenCalls(s) = {}, "P01") \cup If(OpenCalls(s) = {}, "P03")        \* everything settled
  \cup If(\A id \in OpenCalls(s) : Tries(s, id) = <<>> \/ ~Failed(LastTry(s, id)), "P02")  \* neither retried nor rejected
  \cup If(s.ended => s.endok /\ e.alive = <<>>, "P03")                      \* nothing left behind
  \cup If(s.closing = 0, "P03")
  \cup If(s.ended => e.ends.total = e.spawned /\ e.ends.timeout = s.timeouts, "P04")  \* accounted for

\* "again": end() and both disposals are called once more on an ended instance
Bad(s, e) ==
  CASE e.ev = "call"    -> If(e.id \notin DOMAIN s.calls /\ e.kind \in Kinds, "P01")
    [] e.ev = "start"   -> If(e.c \notin DOMAIN s.kids, "P04")
    [] e.ev = "recv"    -> RecvBad(s, e)
    [] e.ev = "rel"     -> If(e.c \in DOMAIN s.kids /\ s.kids[e.c].busy = e.id, "P04")
    [] e.ev \in {"crash", "hang", "timeout"} -> If(e.c \in DOMAIN s.kids, "P04")
    [] e.ev = "settle"  -> SettleBad(s, e)
    [] e.ev = "endok"   -> If(s.ended, "P03")
    [] e.ev = "again"   -> If(s.ended /\ e.st = "ok", "P03")
    [] e.ev = "sample"  -> If(e.ended = s.ended, "P03") \cup If(SampleOk(s, e), "P04")
    [] e.ev = "final"   -> FinalBad(s, e)
    [] e.ev \in {"close", "closeok", "end"} -> {}
    [] e.ev = "overlap" -> {"P04"}                              \* a second command while busy
    [] OTHER            -> {"P03"}                              \* endfail, closefail
Ok(s, e) == Bad(s, e) = {}

\* ---- what they do -------------------------------------------------------------------
Step(s, e) ==
  CASE e.ev = "call"    -> [s EXCEPT !.calls = Put(@, e.id, [kind |-> e.kind, st |-> "open", late |-> s.ended,
                                                            epoch |-> s.epoch, tries |-> <<>>, toks |-> <<>>])]
    [] e.ev = "start"   -> [s EXCEPT !.kids = Put(@, e.c, [st |-> "up", busy |-> "", served |-> 0, epoch |-> s.epoch])]
    [] e.ev = "recv" /\ e.c \in DOMAIN s.kids /\ e.id \in DOMAIN s.calls ->
         LET s1 == [s EXCEPT !.kids[e.c].busy = e.id, !.kids[e.c].served = @ + 1,
                             !.calls[e.id].tries = Append(@, Try(e.c))]
         IN IF Abandoned(s, e.c) THEN DropTry(s1, e.c, "lost") ELSE s1
    [] e.ev = "rel" /\ Ok(s, e) ->
         LET i == TryOn(s, e.c, e.id)
             st == IF Abandoned(s, e.c) THEN "late" ELSE Class(s.calls[e.id].kind, e.out)
         IN [SetTry(s, e.id, i, st, e.out, e.tok) EXCEPT !.kids[e.c].busy = ""]
    [] e.ev \in {"crash", "hang"} /\ Ok(s, e) ->
         [DropTry(s, e.c, "bad") EXCEPT !.kids[e.c].st = IF e.ev = "crash" THEN "dead" ELSE "hung",
                                        !.kids[e.c].busy = ""]
    [] e.ev = "timeout" /\ Ok(s, e) ->
         LET mine == {id \in DOMAIN s.calls : \E i \in 1..Len(Tries(s, id)) : Tries(s, id)[i].c = e.c}
             last == {id \in mine : s.calls[id].st = "open" /\ LastTry(s, id).c = e.c /\ LastTry(s, id).st \in {"good", "bad", "soft", "last"}
                                    /\ s.kids[e.c].st = "up"}
             s1 == IF s.kids[e.c].busy # "" THEN DropTry(s, e.c, "bad") ELSE s
             s2 == [s1 EXCEPT !.calls = [id \in DOMAIN @ |-> IF id \in last
                       THEN [@[id] EXCEPT !.tries[Len(@[id].tries)].st = "late"] ELSE @[id]]]
         IN [s2 EXCEPT !.kids[e.c].st = "hung", !.kids[e.c].busy = "", !.timeouts = @ + 1]
    [] e.ev = "settle" /\ e.id \in DOMAIN s.calls -> [s EXCEPT !.calls[e.id].st = e.st, !.calls[e.id].toks = e.toks]
    [] e.ev = "close"   -> [AbandonAll(s) EXCEPT !.epoch = @ + 1, !.closing = @ + 1]
    [] e.ev = "closeok" -> [s EXCEPT !.closing = @ - 1]
    [] e.ev = "end"     -> [AbandonAll(s) EXCEPT !.ended = TRUE]
    [] e.ev = "endok"   -> [s EXCEPT !.endok = TRUE]
    [] OTHER            -> s
=============================================================================
