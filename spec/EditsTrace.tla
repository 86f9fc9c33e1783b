------------------------------ MODULE EditsTrace ------------------------------
EXTENDS Edits, TraceLib
W == INSTANCE WriteEnc
\* ---- call: what was transmitted; lines: <<[tag, op, text]>> in order
CPS_Name == <<67, 111, 108, 108, 101, 99, 116, 105, 111, 110, 78, 97, 109, 101>>
CPS_URI == <<67, 111, 108, 108, 101, 99, 116, 105, 111, 110, 85, 82, 73>>
Wire(m) == IF m.tag = CollTag THEN W!Decode("struct", m.text) ELSE W!Decode("list", m.text)
\* the fields of a transmitted collection, in either order
Fields(x) == (IF x.name.set THEN {<<CPS_Name, W!S(x.name.cps)>>} ELSE {}) \cup (IF x.uri.set THEN {<<CPS_URI, W!S(x.uri.cps)>>} ELSE {})
Denotes(m, x) ==
  LET d == Wire(m) IN
  IF x.tag = CollTag THEN /\ d.k = "m" /\ Len(d.ks) = Cardinality(Fields(x))
                          /\ {<<d.ks[i], d.xs[i]>> : i \in 1..Len(d.ks)} = Fields(x)
  ELSE d = W!L(<<W!S(x.cps)>>)
LinesOf(ls, tag, op) == SelectSeq(ls, LAMBDA m : m.tag = tag /\ m.op = op)
SentOk(xs, ls) ==
  /\ \A i \in 1..Len(ls) : \E j \in 1..Len(xs) : xs[j].tag = ls[i].tag /\ xs[j].op = ls[i].op /\ Denotes(ls[i], xs[j])
  /\ \A tag \in {xs[i].tag : i \in 1..Len(xs)} :
       LET A == Of(xs, tag, "add") B == LinesOf(ls, tag, "add") R == Of(xs, tag, "remove") Q == LinesOf(ls, tag, "remove") IN
       /\ Len(A) = Len(B) /\ \A i \in 1..Len(A) : Denotes(B[i], A[i])
       /\ \A i \in 1..Len(R) : \E j \in 1..Len(Q) : Denotes(Q[j], R[i])
ArgsOk(e) == \A i \in 1..Len(e.args) : e.args[i].ok
CallOk(e) == IF ~EditsOk(e.edits) \/ ~ArgsOk(e) THEN e.st = "err" /\ e.n = 0
             ELSE e.st = "ok" /\ e.n = 1 /\ SentOk(e.edits, e.lines)
\* ---- file: the stored lists before and after the call
Tags(e) == DOMAIN e.before
EditsFileOk(e) ==
  IF ~EditsOk(e.edits) THEN e.st = "err" /\ e.after = e.before /\ e.others
  ELSE /\ e.st = "ok" /\ e.others
       /\ \A t \in Tags(e) : ResultOk(e.before[t], e.edits, t, e.after[t])
EOk(e) == CASE e.op = "call" -> CallOk(e) [] e.op = "file" -> EditsFileOk(e)
EWant(e) == CASE e.op = "call" -> <<IF EditsOk(e.edits) /\ ArgsOk(e) THEN "sent" ELSE "refused">>
              [] e.op = "file" -> <<EditsOk(e.edits), [t \in Tags(e) |-> Kept(e.before[t], e.edits, t) \o Added(e.edits, t)]>>
=============================================================================
