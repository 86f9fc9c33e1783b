------------------------------- MODULE MC_File --------------------------------
(* All histories of a few operations on two files (one that must exist, one that  *)
(* can be created), with crashes.  Generates the operations, of which the          *)
(* conformance run replays pairs and longer histories with the real ExifTool.      *)
EXTENDS File, TLC, Json, IOUtils
CONSTANTS MaxOps
T == {"s", "l"}                    \* a scalar and a list
Names == {"a.jpg", "b.xmp", "c.jpg"}
SetsS == {<<>>, <<"u">>, <<"v">>}
SetsL == {<<>>, <<"u">>, <<"u", "v">>}
Sets == {<<<<"s", x>>>> : x \in SetsS} \cup {<<<<"l", x>>>> : x \in SetsL} \cup {<<<<"s", x>>, <<"l", y>>>> : x \in {<<>>, <<"v">>}, y \in {<<>>, <<"v", "u">>}}
E(op, v) == [tag |-> "l", op |-> op, v |-> v]
EditLists == {<<E("add", "u")>>, <<E("remove", "u")>>, <<E("remove", "u"), E("add", "v")>>, <<E("add", "v"), E("add", "v")>>, <<E("remove", "v"), E("add", "v")>>}
Ops == {[op |-> "write", f |-> f, set |-> x, over |-> o, creatable |-> f = "b.xmp"] : f \in Names, x \in Sets, o \in BOOLEAN}
  \cup {[op |-> "edit", f |-> f, edits |-> x, over |-> o, creatable |-> f = "b.xmp"] : f \in Names, x \in EditLists, o \in BOOLEAN}
  \cup {[op |-> "delete", f |-> f, keep |-> k, creatable |-> f = "b.xmp"] : f \in Names, k \in {<<>>, <<"s">>, <<"l">>}}
  \cup {[op |-> "rewrite", f |-> "a.jpg", to |-> "c.jpg"], [op |-> "rewrite", f |-> "c.jpg", to |-> "a.jpg"], [op |-> "rewrite", f |-> "b.xmp", to |-> "c.jpg"]}
VARIABLES fs, n, last
vars == <<fs, n, last>>
Init == fs = ("a.jpg" :> [t |-> Blank(T), b |-> "0"]) /\ n = 0 /\ last = [st |-> "none"]
Whole == \A f \in DOMAIN fs : fs[f].b # "part"
Next == /\ n < MaxOps /\ n' = n + 1 /\ Whole
        /\ \E o \in Ops, crash \in BOOLEAN :
             \E r \in IF crash THEN Crashed(fs, T, o) ELSE Results(fs, T, o) :
               fs' = r.fs /\ last' = [st |-> r.st, c |-> r.c, o |-> o, before |-> fs, crash |-> crash]
Spec == Init /\ [][Next]_vars
Did == last.st # "none"
\* other files are left alone, the source of a rewrite as well
OnlyTarget == Did => \A f \in DOMAIN last.before \cup DOMAIN fs :
                f \in {Target(last.o), Bk(Target(last.o))} \/ (f \in DOMAIN last.before /\ f \in DOMAIN fs /\ fs[f] = last.before[f])
\* an operation that failed without a crash, or reports that nothing changed, did nothing
NoopIsNoop == Did /\ ~last.crash /\ (last.st = "err" \/ last.c = Unchanged) => fs = last.before
\* a backup is the content before the first change that keeps one, and stays
Backups == Did => \A f \in DOMAIN last.before :
             /\ Bk(f) \in DOMAIN last.before => Bk(f) \in DOMAIN fs /\ fs[Bk(f)] = last.before[Bk(f)]
             /\ Bk(f) \in DOMAIN fs \ DOMAIN last.before => fs[Bk(f)] = last.before[f] /\ ~(last.o.op \in {"write", "edit"} /\ last.o.over)
\* no content is lost: even after a crash, what a file held is in it or in its backup
NothingLost == Did => \A f \in DOMAIN last.before : f \in DOMAIN fs \/ (Bk(f) \in DOMAIN fs /\ (Bk(f) \in DOMAIN last.before \/ fs[Bk(f)] = last.before[f]))
\* tags that were not named keep their values
Untouched == Did /\ last.o.op = "write" /\ last.o.f \in DOMAIN last.before /\ last.o.f \in DOMAIN fs =>
               \A x \in T : Assigned(last.o, x) \/ fs[last.o.f].t[x] = last.before[last.o.f].t[x]
Counts == Did /\ last.st = "ok" /\ last.o.op # "rewrite" =>
            /\ (last.c = Created) = (last.o.f \notin DOMAIN last.before /\ last.o.f \in DOMAIN fs)
            /\ last.c \in {Updated, Unchanged} => last.o.f \in DOMAIN last.before
Idempotent == Did /\ ~last.crash /\ last.st = "ok" /\ last.o.op = "write" /\ last.o.f \in DOMAIN fs =>
                \A r \in Write(fs, T, last.o) : r.fs[last.o.f].t = fs[last.o.f].t
Live == Whole => \A o \in Ops : Results(fs, T, o) # {}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Ops))
=============================================================================
