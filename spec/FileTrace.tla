------------------------------ MODULE FileTrace -------------------------------
EXTENDS File, TraceLib
TagSet(e) == {e.tags[i] : i \in 1..Len(e.tags)}
FOk(e) == Run(SeenFs(e.start), TagSet(e), e.h).S # {}
FWant(e) == LET r == Run(SeenFs(e.start), TagSet(e), e.h) IN [step |-> r.n]
=============================================================================
