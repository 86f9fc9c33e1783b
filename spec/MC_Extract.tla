------------------------------ MODULE MC_Extract ------------------------------
(* All histories of extractions between a few files, one of which embeds two     *)
(* values, one of which embeds an image that itself embeds a value.  Generates    *)
(* the universe of operations, of which the conformance run replays every pair    *)
(* and random longer histories against the real ExifTool.                        *)
EXTENDS Extract, TLC, Json, IOUtils
CONSTANTS MaxOps
Tags == {"T", "P"}
Names == {"s", "e", "d", "d2", "dir", "no"}    \* e: an image without values; no: a source that is not there
Emb == ("s0" :> [T |-> "s0.T", P |-> "s0.P"]) @@ ("s0.P" :> [T |-> "s0.P.T"])
Blocked == {"dir"}
Start == ("s" :> "s0") @@ ("e" :> "e0") @@ ("d2" :> "d2.0")
Ops == {[op |-> "file", tag |-> t, src |-> s, dest |-> d, call |-> c, instance |-> "no", badtag |-> FALSE, odd |-> FALSE] :
          t \in Tags, s \in {"s", "e", "d", "no"}, d \in {"d", "d2", "dir", "s"}, c \in {"unset", "yes", "no"}}
VARIABLES fs, n, last
vars == <<fs, n, last>>
Init == fs = Start /\ n = 0 /\ last = [st |-> "none"]
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E o \in Ops : \E r \in Results(fs, Emb, Blocked, o) : fs' = r.fs /\ last' = [st |-> r.st, o |-> o, before |-> fs]
Spec == Init /\ [][Next]_vars
\* every content was there at first or is embedded, transitively, in what was
Known == {"s0", "e0", "d2.0", "s0.T", "s0.P", "s0.P.T"}
Authentic == \A x \in DOMAIN fs : fs[x] \in Known
NoClobber == last.st # "none" /\ ~Forced(last.o.call, last.o.instance) =>
               \A x \in DOMAIN last.before : x \in DOMAIN fs /\ fs[x] = last.before[x]
OnlyDest == last.st # "none" => \A x \in DOMAIN fs : x = last.o.dest \/ (x \in DOMAIN last.before /\ fs[x] = last.before[x])
FailedIsNoop == last.st = "err" => fs = last.before
Delivered == last.st = "ok" => fs[last.o.dest] = Value(last.before, Emb, last.o.src, last.o.tag)
NothingLost == DOMAIN Start \subseteq DOMAIN fs
Live == \A o \in Ops : Results(fs, Emb, Blocked, o) # {}

\* answers of ExifTool, for the scripted runs
Made(n2) == [k |-> "made", n |-> n2, text |-> "    " \o ToString(n2) \o " output files created"]
OutL == {Made(0), Made(1), Made(2), Made(10), Made(11), Made(21), [k |-> "made", n |-> 1, text |-> "1 output file created"],
         [k |-> "other", n |-> 1, text |-> "    1 image files read"], [k |-> "other", n |-> 1, text |-> "    1 files could not be read"]}
ErrL == {[k |-> "chat", text |-> "Output file /tmp/x.jpg already exists for /tmp/y.jpg"],
         [k |-> "warning", text |-> "Warning: [minor] Possibly incorrect maker notes offsets - /tmp/y.jpg"],
         [k |-> "warning", text |-> "Warning: Error reading JpgFromRaw from file - /tmp/y.jpg"],
         [k |-> "error", text |-> "Error: File not found - /tmp/y.jpg"],
         [k |-> "error", text |-> "Error creating /tmp/x.jpg"],
         [k |-> "error", text |-> "Error opening file - /tmp/y.jpg"]}
Lists(S) == {<<>>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a \in S, b \in S}
\* ExifTool prints its count once
Answers == {[so |-> a, se |-> b] : a \in {x \in Lists(OutL) : Cardinality({i \in 1..Len(x) : x[i].k = "made"}) <= 1}, b \in Lists(ErrL)}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[kind |-> "op", v |-> o] : o \in Ops}) \o SetToSeq({[kind |-> "answer", v |-> a] : a \in Answers}))
=============================================================================
