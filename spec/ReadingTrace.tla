------------------------------ MODULE ReadingTrace ------------------------------
EXTENDS Reading, TraceLib
\* tags: sequence of [name, v, o]; extra: further entries of the result
ReadOk(e) ==
  LET bad == {i \in 1..Len(e.tags) : ~Accept(Kinds[e.tags[i].name], e.tags[i].v, e.tags[i].o)} IN
  IF e.other THEN e.st = "err"                          \* the output names another file
  ELSE /\ e.st = "ok" /\ bad = {} /\ e.lost = 0
       /\ \A i \in 1..Len(e.extra) : e.extra[i] \in Additions
       /\ \A i \in 1..Len(e.said.errors) : \E j \in 1..Len(e.errors) : e.errors[j] = e.said.errors[i]
       /\ \A i \in 1..Len(e.said.warnings) : \E j \in 1..Len(e.warnings) : e.warnings[j] = e.said.warnings[i]
       /\ \A j \in 1..Len(e.errors) : \E i \in 1..Len(e.said.errors) : e.errors[j] = e.said.errors[i]
\* a raw read: values and names, as JSON text
RawOk(e) == /\ e.st = "ok" /\ e.got = e.want
            /\ \A i \in 1..Len(e.said.errors) : \E j \in 1..Len(e.errors) : e.errors[j] = e.said.errors[i]
            /\ \A i \in 1..Len(e.said.warnings) : \E j \in 1..Len(e.warnings) : e.warnings[j] = e.said.warnings[i]
ROk(e) == CASE e.op = "read" -> ReadOk(e) [] e.op = "raw" -> RawOk(e)
RWant(e) == IF e.op = "read" THEN UNION {Diffs(Kinds[e.tags[i].name], e.tags[i].v, e.tags[i].o) : i \in 1..Len(e.tags)} ELSE e.want
==================================================================================
