-------------------------------- MODULE Edits --------------------------------
(* The effect of tag edits on the lists stored in a file (property P08).        *)
(*                                                                              *)
(* A list is a sequence of values; a value is a sequence of code points, or for *)
(* collections a record [name, uri] of those.  Edits are those of EditRules.    *)
EXTENDS EditRules, TLC, SequencesExt

Val(x) == IF x.tag = CollTag THEN [name |-> x.name.cps, uri |-> x.uri.cps] ELSE x.cps
Matches(x, v) == IF x.tag = CollTag THEN (x.name.set => v.name = x.name.cps) /\ (x.uri.set => v.uri = x.uri.cps) ELSE v = x.cps
Of(xs, tag, op) == SelectSeq(xs, LAMBDA x : x.tag = tag /\ x.op = op)
Removed(xs, tag, v) == LET R == Of(xs, tag, "remove") IN \E i \in 1..Len(R) : Matches(R[i], v)
Kept(list, xs, tag) == SelectSeq(list, LAMBDA v : ~Removed(xs, tag, v))
Added(xs, tag) == LET A == Of(xs, tag, "add") IN [i \in 1..Len(A) |-> Val(A[i])]
\* What remains keeps its order; the additions follow in order, at the end or (as ExifTool
\* does for some formats) where the first removed item was.
ResultOk(before, xs, tag, after) ==
  LET k == Kept(before, xs, tag) a == Added(xs, tag) IN
  \E i \in 0..Len(k) :
    /\ after = SubSeq(k, 1, i) \o a \o SubSeq(k, i + 1, Len(k))
    /\ i = Len(k) \/ (Len(k) < Len(before) /\ a # <<>>)
=============================================================================
