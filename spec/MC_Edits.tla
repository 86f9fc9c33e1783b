------------------------------- MODULE MC_Edits -------------------------------
(* Histories of edit calls on one file.  The calls the library accepts have the  *)
(* same effect whether a call's edits are applied one after the other (as the    *)
(* caller wrote them) or as ExifTool does: all removals, then all additions.     *)
EXTENDS Edits, Json, IOUtils, Integers
CONSTANTS MaxCalls, MaxEdits, Symbols
Tag == "XMP-dc:Subject"
V(c) == <<c>>
F(x) == [set |-> TRUE, cps |-> x]
No == [set |-> FALSE, cps |-> <<>>]
Str(op, c) == [tag |-> Tag, op |-> op, hasValue |-> TRUE, hasPred |-> FALSE, kind |-> "str", cps |-> V(c), name |-> No, uri |-> No, extra |-> FALSE]
CAdd(n, u) == [tag |-> CollTag, op |-> "add", hasValue |-> TRUE, hasPred |-> FALSE, kind |-> "coll", cps |-> <<>>, name |-> F(V(n)), uri |-> F(V(u)), extra |-> FALSE]
CRem(n, u) == [tag |-> CollTag, op |-> "remove", hasValue |-> FALSE, hasPred |-> TRUE, kind |-> "coll", cps |-> <<>>, name |-> n, uri |-> u, extra |-> FALSE]
StrEdits == {Str(op, c) : op \in {"add", "remove"}, c \in Symbols}
CollEdits == {CAdd(n, u) : n \in Symbols, u \in Symbols}
             \cup {CRem(F(V(n)), No) : n \in Symbols} \cup {CRem(No, F(V(u))) : u \in Symbols} \cup {CRem(F(V(n)), F(V(u))) : n \in Symbols, u \in Symbols}
Calls(E) == UNION {[1..n -> E] : n \in 1..MaxEdits}
CONSTANT Coll
E0 == IF Coll THEN CollEdits ELSE StrEdits
T0 == IF Coll THEN CollTag ELSE Tag
VARIABLES list, seqlist, hist
vars == <<list, seqlist, hist>>
Init == list = <<>> /\ seqlist = <<>> /\ hist = <<>>
Batch(l, xs) == Kept(l, xs, T0) \o Added(xs, T0)
Step(l, x) == IF x.op = "add" THEN Append(l, Val(x)) ELSE SelectSeq(l, LAMBDA v : ~Matches(x, v))
OneByOne(l, xs) == FoldLeft(Step, l, xs)
Call(xs) == /\ Len(hist) < MaxCalls /\ EditsOk(xs)
            /\ list' = Batch(list, xs) /\ seqlist' = OneByOne(seqlist, xs)
            /\ hist' = Append(hist, xs)
Next == \E xs \in Calls(E0) : Call(xs)
Spec == Init /\ [][Next]_vars
Count(l, v) == Len(SelectSeq(l, LAMBDA x : x = v))
SameEffect == \A v \in ToSet(list) \cup ToSet(seqlist) : Count(list, v) = Count(seqlist, v)
Same == list = seqlist
Exact == [][\A xs \in Calls(E0) : Call(xs) => ResultOk(list, xs, T0, list')]_vars
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[xs |-> xs, ok |-> EditsOk(xs)] : xs \in Calls(E0)}))
=============================================================================
