-------------------------------- MODULE File ---------------------------------
(* Files as a user of the library sees them (property P23): what a sequence of   *)
(* writes, edits, deletions, rewrites and reads does to a directory of files.    *)
(* fs maps the name of each file that exists to its content [t, b]: t maps every  *)
(* tag to its list of values (<<>>: not there; a single value is a list of one),  *)
(* b stands for its bytes ("?": any; "part": unfinished).  The name of a backup is that of its    *)
(* file with "_original" behind.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Bk(f) == f \o "_original"
Put(fs, f, c) == [x \in DOMAIN fs \cup {f} |-> IF x = f THEN c ELSE fs[x]]
Drop(fs, f) == [x \in DOMAIN fs \ {f} |-> fs[x]]
Fresh(t) == [t |-> t, b |-> "?"]
Blank(T) == [x \in T |-> <<>>]
\* what is no tag, but the picture itself: nothing changes it, and a rewrite has it, too
Fixed == {"picture"}
NoTags(t) == \A x \in DOMAIN t \ Fixed : t[x] = <<>>

\* a changed file: its former content is backed up, unless that is not wanted or there
\* is a backup already
Save(fs, f, t, over) ==
  Put(IF over \/ Bk(f) \in DOMAIN fs THEN fs ELSE Put(fs, Bk(f), fs[f]), f, Fresh(t))

Res(st, c, fs) == [st |-> st, c |-> c, fs |-> fs]
Created == <<1, 0, 0>>
Updated == <<0, 1, 0>>
Unchanged == <<0, 0, 1>>
Nothing == <<0, 0, 0>>
Fail(fs) == Res("err", Nothing, fs)

(* write: o.set is a sequence of <<tag, list>>; an empty list clears the tag. *)
Assigned(o, x) == \E i \in 1..Len(o.set) : o.set[i][1] = x
Value(o, x) == LET i == CHOOSE j \in 1..Len(o.set) : o.set[j][1] = x IN o.set[i][2]
Assign(t, o) == [x \in DOMAIN t |-> IF Assigned(o, x) THEN Value(o, x) ELSE t[x]]
Write(fs, T, o) ==
  IF o.f \notin DOMAIN fs THEN
    IF ~o.creatable THEN {Fail(fs)}
    ELSE LET t == Assign(Blank(T), o) IN
         IF NoTags(t) THEN {Fail(fs), Res("ok", Nothing, fs)}       \* nothing to write
         ELSE {Res("ok", Created, Put(fs, o.f, Fresh(t)))}
  ELSE LET t == fs[o.f].t IN
       IF \A i \in 1..Len(o.set) : o.set[i][2] = <<>> /\ t[o.set[i][1]] = <<>> THEN {Res("ok", Unchanged, fs)}
       ELSE {Res("ok", Updated, Save(fs, o.f, Assign(t, o), o.over))}

(* edit: o.edits is a sequence of [tag, op, v]; no value is both added and removed.    *)
(* What remains keeps its order; the additions follow in order, at the end or where the *)
(* first removed item was.                                                             *)
Of(o, x, op) == SelectSeq(o.edits, LAMBDA e : e.tag = x /\ e.op = op)
Lists(l, o, x) ==
  LET R == Of(o, x, "remove")
      A == Of(o, x, "add")
      a == [i \in 1..Len(A) |-> A[i].v]
      k == SelectSeq(l, LAMBDA v : ~\E i \in 1..Len(R) : R[i].v = v) IN
  {k \o a} \cup IF Len(k) < Len(l) /\ a # <<>> THEN {SubSeq(k, 1, i) \o a \o SubSeq(k, i + 1, Len(k)) : i \in 0..Len(k)} ELSE {}
Edited(o) == {o.edits[i].tag : i \in 1..Len(o.edits)}
After(t, o) == FoldLeft(LAMBDA S, x : UNION {{[u EXCEPT ![x] = l] : l \in Lists(u[x], o, x)} : u \in S}, {t}, SetToSeq(Edited(o)))
Adds(o) == \E i \in 1..Len(o.edits) : o.edits[i].op = "add"
Edit(fs, T, o) ==
  IF o.f \notin DOMAIN fs THEN
    IF ~o.creatable THEN {Fail(fs)}
    ELSE IF ~Adds(o) THEN {Fail(fs), Res("ok", Nothing, fs)}
    ELSE {Res("ok", Created, Put(fs, o.f, Fresh(t))) : t \in After(Blank(T), o)}
  ELSE LET t == fs[o.f].t IN
       IF ~Adds(o) /\ After(t, o) = {t} THEN {Res("ok", Unchanged, fs)}
       ELSE {Res("ok", Updated, Save(fs, o.f, u, o.over)) : u \in After(t, o)}

(* delete all tags but those of the set o.keep (a sequence).  There may be other tags. *)
Delete(fs, T, o) ==
  IF o.f \notin DOMAIN fs THEN {Fail(fs)} \cup IF o.creatable THEN {Res("ok", Nothing, fs)} ELSE {}
  ELSE LET t == fs[o.f].t
           u == [x \in DOMAIN t |-> IF x \in Fixed \/ \E i \in 1..Len(o.keep) : o.keep[i] = x THEN t[x] ELSE <<>>] IN
       {Res("ok", Updated, Save(fs, o.f, u, FALSE))} \cup IF u = t THEN {Res("ok", Unchanged, fs)} ELSE {}

(* rewrite all tags of a file to a new file *)
Rewrite(fs, T, o) ==
  IF o.f \notin DOMAIN fs \/ o.to \in DOMAIN fs THEN {Fail(fs)}
  ELSE LET done == Res("ok", Nothing, Put(fs, o.to, Fresh(fs[o.f].t))) IN
       IF NoTags(fs[o.f].t) THEN {done, Fail(fs)} ELSE {done}

Results(fs, T, o) == CASE o.op = "write" -> Write(fs, T, o)
                       [] o.op = "edit" -> Edit(fs, T, o)
                       [] o.op = "delete" -> Delete(fs, T, o)
                       [] o.op = "rewrite" -> Rewrite(fs, T, o)
                       [] o.op = "remove" -> {Res("ok", Nothing, Drop(fs, o.f))}   \* by others

Target(o) == IF o.op = "rewrite" THEN o.to ELSE o.f
(* When the child may have been killed meanwhile, a call that failed has done nothing,   *)
(* or everything, or left off after it moved the file to its backup, or while it made a   *)
(* new file, whose content is then open.                                                  *)
Crashed(fs, T, o) ==
  LET R == Results(fs, T, o)
      f == Target(o) IN
  {Fail(fs)} \cup {Res("err", Nothing, r.fs) : r \in R}
  \cup {Res("err", Nothing, Drop(r.fs, f)) : r \in {q \in R : f \in DOMAIN fs /\ Bk(f) \in DOMAIN q.fs}}
  \cup IF f \in DOMAIN fs THEN {} ELSE {Res("err", Nothing, Put(fs, f, [t |-> Blank(T), b |-> "part"]))}

ReadOk(fs, o) ==
  IF o.f \in DOMAIN fs THEN o.st = "ok" /\ \A x \in DOMAIN o.got : o.got[x] = fs[o.f].t[x] ELSE o.st = "err"

(* The states possible after an event.  All operations of a batch concern different     *)
(* files and may run at the same time.                                                  *)
Step1(S, T, o) ==
  IF o.op = "read" THEN (IF o.crash /\ o.st = "err" THEN S ELSE {fs \in S : ReadOk(fs, o)})
  ELSE UNION {{r.fs : r \in {q \in Results(fs, T, o) \cup (IF o.crash THEN Crashed(fs, T, o) ELSE {}) :
                              q.st = o.st /\ (q.st = "ok" => q.c = o.c)}} : fs \in S}
\* e.seen: the files found, as records [f, t, b]
Fits(fs, seen) ==
  /\ Len(seen) = Cardinality(DOMAIN fs)
  /\ \A i \in 1..Len(seen) : /\ seen[i].f \in DOMAIN fs
                             /\ LET c == fs[seen[i].f] IN
                                /\ c.b = "part" \/ c.t = seen[i].t
                                /\ c.b \in {"?", "part"} \/ c.b = seen[i].b
SeenFs(seen) == [f \in {seen[i].f : i \in 1..Len(seen)} |->
                  LET i == CHOOSE j \in 1..Len(seen) : seen[j].f = f IN [t |-> seen[i].t, b |-> seen[i].b]]
StepE(S, T, e) ==
  IF e.op = "see" THEN (IF \E fs \in S : Fits(fs, e.seen) THEN {SeenFs(e.seen)} ELSE {})
  ELSE Step1(S, T, e)
Run(fs, T, h) == FoldLeft(LAMBDA s, e : IF s.S = {} THEN s ELSE [S |-> StepE(s.S, T, e), n |-> s.n + 1], [S |-> {fs}, n |-> 0], h)
=============================================================================
