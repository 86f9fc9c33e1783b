---------------------------- MODULE ZoneArithTrace ----------------------------
EXTENDS ZoneArith, TraceLib
\* setzone: e.a moved to a zone gives e.b; keep: "t", "f", or "u" (left to the library: declare what has no zone, convert what has)
SetOk(e) == /\ (IF e.keep = "t" \/ (e.keep = "u" /\ ~e.a.hasZone) THEN Declared(e.a, e.b, e.name, e.secs) ELSE Converted(e.a, e.b, e.name, e.secs))
            /\ Sound(e.b) /\ e.b.inf = (IF e.inf = "u" THEN "t" ELSE e.inf) /\ e.b.raw = e.a.raw
\* plus: e.offs are pairs: an offset of the shifted wall clock, and that of the instant then reached
PlusOk(e) == IF e.a.hasZone
             THEN /\ \E i \in DOMAIN e.offs : LET p == Reached(e.a, e.u, e.offs[i][1]) IN
                        /\ Inst(e.b) = p /\ e.b.off = e.offs[i][2] /\ Fields(e.b) = FieldsOf(Local(p, e.offs[i][2]), e.a.ms >= 0)
                  /\ e.b.ok /\ e.b.zone = e.a.zone /\ e.b.inf = e.a.inf /\ Sound(e.b)
             ELSE e.b.ok /\ ~e.b.hasZone /\ Fields(e.b) = FieldsOf(Reached(e.a, e.u, 0), e.a.ms >= 0) /\ Sound(e.b) /\ e.b.inf = e.a.inf
\* millis: a timestamp made from an instant; sysSec: the system's offset then
MillisOk(e) == /\ e.b.ok /\ Sound(e.b) /\ e.b.hasZone = (e.name # "")
               /\ (e.name # "" => e.b.zone = e.name /\ Inst(e.b) = <<e.day, e.msod>>)
               /\ Fields(e.b) = FieldsOf(Local(<<e.day, e.msod>>, e.sec), TRUE)
\* over: the instant of e.a's wall clock, taken to be in another zone; jsday/jsmsod: of its JavaScript Date
OverOk(e) == /\ \E s \in Elems(e.secs) : <<e.day, e.msod>> = Instant(Fields(e.a), s) /\ e.epoch = <<e.day, e.msod \div 1000>>
             /\ (e.a.hasZone => <<e.jsday, e.jsmsod>> = Inst(e.a))
\* match: e.a in the zone of e.t, if within max ms of it either as an instant or as a wall clock
MatchOk(e) == IF ~e.t.hasZone THEN ~e.b.ok
              ELSE IF e.a.hasZone /\ Diff(Inst(e.a), Inst(e.t)) <= e.max THEN Inst(e.b) = Inst(e.a) /\ e.b.zone = e.t.zone
              ELSE IF e.b.ok THEN e.b.zone = e.t.zone /\ Diff(Inst(e.b), Inst(e.t)) <= e.max /\ (e.a.hasZone => Fields(e.b) = Fields(e.a))
              ELSE e.gap \/ \E s \in Elems(e.secs) : Diff(Instant(Fields(e.a), s), Inst(e.t)) > e.max
\* tset: a time of day; converted by the difference of the offsets, or declared
TsetOk(e) == /\ e.b.ok /\ e.b.zone = e.name /\ e.b.hasZone /\ e.b.ms = e.a.ms /\ e.b.raw = e.a.raw
             /\ LET t(o) == (o.h * 60 + o.mi) * 60 + o.s IN
                IF e.keep = "t" \/ (e.keep = "u" /\ ~e.a.hasZone) THEN t(e.b) = t(e.a) ELSE t(e.b) = (t(e.a) + e.b.off - e.a.off) % 86400
\* nothing changes a value that exists
AOk(e) == e.a2 = e.a /\ (CASE e.op = "setzone" -> SetOk(e) [] e.op = "plus" -> PlusOk(e) [] e.op = "millis" -> MillisOk(e) [] e.op = "over" -> OverOk(e) [] e.op = "match" -> MatchOk(e) [] e.op = "tset" -> TsetOk(e))
AWant(e) == IF e.op = "plus" /\ e.a.hasZone THEN [i \in DOMAIN e.offs |-> FieldsOf(Local(Reached(e.a, e.u, e.offs[i][1]), e.offs[i][2]), e.a.ms >= 0)] ELSE ""
=============================================================================
