------------------------------ MODULE ZoneArith ------------------------------
(* Moving a timestamp to another zone and adding durations.  The offsets of    *)
(* named zones are facts of the environment, given as sequences of seconds.    *)
EXTENDS TimeText
Inst(o) == <<o.day, o.msod>>
Elems(q) == {q[i] : i \in DOMAIN q}
\* b is o moved to the zone `name`, at the same instant
Converted(o, b, name, secs) == /\ b.ok /\ b.zone = name /\ b.off \in Elems(secs) /\ Inst(b) = Inst(o)
                               /\ Fields(b) = FieldsOf(Local(Inst(o), b.off), o.ms >= 0)
\* b is o declared to be in the zone `name`: the same wall clock
Declared(o, b, name, secs) == /\ b.ok /\ b.zone = name /\ b.off \in Elems(secs) /\ Fields(b) = Fields(o)
                              /\ Inst(b) = Instant(Fields(o), b.off)
\* a duration: months and days move the wall clock, the rest moves the instant
Mo(u) == 12 * u.years + 3 * u.quarters + u.months
Da(u) == 7 * u.weeks + u.days
Sec(u) == 3600 * u.hours + 60 * u.minutes + u.seconds
Shifted(f, u) == LET c == AddMonths([y |-> f.y, m |-> f.m, d |-> f.d], Mo(u)) p == Point(f) IN <<Days(c.y, c.m, c.d) + Da(u), p[2]>>
\* the instant reached from o, when the shifted wall clock has offset o1
Reached(o, u, o1) == AddMs(AddSec(IF Mo(u) = 0 /\ Da(u) = 0 /\ o.hasZone THEN Inst(o) ELSE AddSec(Shifted(Fields(o), u), -o1), Sec(u)), u.milliseconds)
Diff(p, q) == LET dd == p[1] - q[1] IN IF dd > 20 \/ dd < -20 THEN 2000000000 ELSE Abs(dd * DayMs + p[2] - q[2])
=============================================================================
