----------------------------- MODULE MC_ZoneArith -----------------------------
(* Histories of conversions and additions on one timestamp.  Conversions never *)
(* move the instant; adding and then subtracting hours is the identity; adding *)
(* months never leaves the calendar; one day is 24 hours at a fixed offset.     *)
EXTENDS ZoneArith
CONSTANT Depth
Offs == {0, 3600, -12600, 50400, -43200}
Starts == {[y |-> y, m |-> m, d |-> d, h |-> h, mi |-> 30, s |-> 59, ms |-> ms] : y \in {2, 1999, 2000, 2023}, m \in {1, 2, 12}, d \in {1, 28}, h \in {0, 23}, ms \in {-1, 0, 999}}
Zero == [years |-> 0, quarters |-> 0, months |-> 0, weeks |-> 0, days |-> 0, hours |-> 0, minutes |-> 0, seconds |-> 0, milliseconds |-> 0]
Durs == {[Zero EXCEPT !.hours = h] : h \in {1, -25}} \cup {[Zero EXCEPT !.days = d] : d \in {1, -1, 365}} \cup {[Zero EXCEPT !.months = m, !.minutes = 90] : m \in {1, -1}} \cup {[Zero EXCEPT !.milliseconds = 1]}
VARIABLES o, off, hist
Obs(f, z) == f @@ [hasZone |-> TRUE, day |-> Instant(f, z)[1], msod |-> Instant(f, z)[2], off |-> z]
Init == \E f \in Starts, z \in Offs : o = Obs(f, z) /\ off = z /\ hist = <<>>
Convert == \E z \in Offs : /\ o' = Obs(FieldsOf(Local(Inst(o), z), o.ms >= 0), z) /\ off' = z
                           /\ hist' = Append(hist, [k |-> "zone", u |-> Zero, z |-> z])
Plus == \E u \in Durs : /\ o' = Obs(FieldsOf(Local(Reached(o, u, off), off), o.ms >= 0), off) /\ off' = off
                        /\ hist' = Append(hist, [k |-> "plus", u |-> u, z |-> 0])
Next == Len(hist) < Depth /\ (Convert \/ Plus)
Spec == Init /\ [][Next]_<<o, off, hist>>
SameInstant == [][(hist' # hist /\ hist'[Len(hist')].k = "zone") => Inst(o') = Inst(o)]_<<o, off, hist>>
RealAlways == o.y >= 1 => ValidDate(o.y, o.m, o.d) /\ RealTime(o) /\ Inst(o) = Instant(Fields(o), off)
AddSubtract == \A u \in Durs : Mo(u) = 0 =>
             LET p == Obs(FieldsOf(Local(Reached(o, u, off), off), o.ms >= 0), off)
                 v == [x \in DOMAIN u |-> -u[x]]
             IN Reached(p, v, off) = Inst(o)
DayIs24h == Reached(o, [Zero EXCEPT !.days = 1], off) = Reached(o, [Zero EXCEPT !.hours = 24], off)
=============================================================================
