------------------------------- MODULE Launch --------------------------------
(* How the children of an instance are started, and who hears of it (property   *)
(* P24).                                                                        *)
(*                                                                              *)
(* A configuration c has: path, how the program is named ("text", "promise",     *)
(* "fn", "asyncfn": a program of the caller; "blank" or "unset": the vendored     *)
(* one); shebang ("unset", "yes", "no"), args (a list), env (a function), home    *)
(* (EXIFTOOL_HOME of the host, "" if there is none) and factory (whether the     *)
(* caller starts the children).                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Blank(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) = " "
Program(c) == IF c.path \in {"blank", "unset"} THEN "vendored" ELSE "own"
\* perl is found for the child by its first line, or by the library
By(c) == IF c.shebang = "yes" THEN "perl" ELSE "shebang"
Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
HomeOf(env) == IF "EXIFTOOL_HOME" \in DOMAIN env THEN env["EXIFTOOL_HOME"] ELSE ""
Env(c) == LET e == Merge(c.env, "LANG" :> "C") IN
          IF Blank(HomeOf(c.env)) /\ ~Blank(c.home) THEN Merge(e, "EXIFTOOL_HOME" :> c.home) ELSE e
\* how ExifTool is told to wait for commands
StayOpen == <<"-stay_open", "True", "-@", "-">>
Args(c) == IF c.args = <<"unset">> THEN StayOpen ELSE c.args
Child(c) == [program |-> Program(c), by |-> By(c), args |-> Args(c), env |-> Env(c)]

(* A history of one instance.  State: whether its program is there, whether the     *)
(* instance has ended, calls waiting for a child, whether the second listener is     *)
(* still registered and what it had heard when it was not any more.                  *)
Start == [broken |-> FALSE, ended |-> FALSE, pend |-> 0, sub |-> TRUE, s2 |-> 0, e2 |-> 0, starts |-> 0, ok |-> TRUE]

(* Each event e carries what had been heard when it was over: starts and ends of      *)
(* children by the first listener, s2 and e2 by the second, failures to start, and     *)
(* the numbers of calls that settled by then since the last event: good, bad.          *)
Heard(s, e) == /\ e.starts >= s.starts /\ e.ends <= e.starts
               /\ IF s.sub THEN e.s2 = e.starts /\ e.e2 = e.ends ELSE e.s2 = s.s2 /\ e.e2 = s.e2
AllGone(e) == e.ends = e.starts
StepOk(s, e, max) ==
  /\ Heard(s, e)
  /\ CASE e.op = "call"  -> IF s.ended THEN e.good = 0 /\ e.bad = e.n /\ e.starts = s.starts
                            ELSE IF s.broken THEN e.good = 0 /\ e.bad = 0 /\ e.starts = s.starts /\ e.failures > 0
                            ELSE e.good = e.n /\ e.bad = 0 /\ e.starts - e.ends \in 1..max
       [] e.op \in {"close", "kill", "break"} -> e.good = 0 /\ e.bad = 0 /\ AllGone(e)
       [] e.op = "mend"  -> e.good = s.pend /\ e.bad = 0
       [] e.op = "off"   -> e.good = 0 /\ e.bad = 0
       [] e.op = "end"   -> e.good = 0 /\ e.bad = s.pend /\ AllGone(e) /\ e.before = 1 /\ e.over = 1
StepTo(s, e) ==
  [s EXCEPT !.starts = e.starts,
            !.broken = IF e.op = "break" THEN TRUE ELSE IF e.op = "mend" THEN FALSE ELSE @,
            !.ended = @ \/ e.op = "end",
            !.pend = IF e.op \in {"mend", "end"} THEN 0 ELSE IF e.op = "call" /\ s.broken /\ ~s.ended THEN @ + e.n ELSE @,
            !.sub = @ /\ e.op # "off",
            !.s2 = IF s.sub THEN e.starts ELSE @,
            !.e2 = IF s.sub THEN e.ends ELSE @]
RunH(h, max) == FoldLeft(LAMBDA s, e : IF ~s.ok THEN s ELSE IF StepOk(s, e, max) THEN StepTo(s, e) ELSE [s EXCEPT !.ok = FALSE], Start, h)

(* The whole instance: every child as configured, the path worked out once at most,    *)
(* the caller's own function used for every child and none else.                       *)
InstanceOk(c, r) ==
  /\ RunH(r.h, r.max).ok
  /\ LET n == r.h[Len(r.h)].starts IN
     /\ Len(r.children) \in (IF n = 0 THEN 0 ELSE 1)..n  \* (some may be gone before they are looked at)
     /\ r.strays = 0                                     \* none was started that nobody was told of
     /\ IF c.factory
        THEN r.factoryCalls = n + r.factoryFailures /\ r.pathCalls = 0 /\ \A i \in DOMAIN r.children : r.children[i].program = "factory"
        ELSE /\ r.factoryCalls = 0
             /\ \A i \in DOMAIN r.children : r.children[i] = Child(c)
             /\ c.path \in {"fn", "asyncfn"} => r.pathCalls = IF n + r.h[Len(r.h)].failures = 0 THEN 0 ELSE 1
=============================================================================
