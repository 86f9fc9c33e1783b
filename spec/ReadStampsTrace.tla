---------------------------- MODULE ReadStampsTrace ----------------------------
EXTENDS ReadStamps, TraceLib
\* e.stamps: sequence of [utcName, v, at, here, o]
COf(e, s) == [utcName |-> s.utcName, video |-> e.video, backfill |-> e.backfill, zone |-> e.zone]
OneOk(e, s) == IF s.v.k = "time" THEN TimeOk(COf(e, s), s.v, s.o) ELSE StampOk(COf(e, s), s.v, s.at, s.here, s.o)
NOk(e) == e.st = "ok" /\ \A i \in 1..Len(e.stamps) : OneOk(e, e.stamps[i])
NWant(e) == {<<Meaning(COf(e, e.stamps[i]), e.stamps[i].v), e.stamps[i]>> : i \in {j \in 1..Len(e.stamps) : ~OneOk(e, e.stamps[j])}}
=================================================================================
