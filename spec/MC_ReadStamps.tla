---------------------------- MODULE MC_ReadStamps ----------------------------
(* All classes of timestamps under all options, at clocks around midnight and    *)
(* month ends: exactly one meaning, and the same instant whenever it has one.     *)
EXTENDS ReadStamps, Json, IOUtils, SequencesExt
Offs == {-660, -480, 0, 330, 840}
Clocks == {<<2020, 2, 29, 23, 59, 59, 0>>, <<2020, 3, 1, 0, 0, 0, 5>>, <<2019, 12, 31, 12, 0, 0, 0>>}
Rows == {[utcName |-> u, video |-> w, backfill |-> b, zoneOff |-> z, off |-> o, f |-> f, k |-> kd] :
          u \in BOOLEAN, w \in BOOLEAN, b \in BOOLEAN, z \in Offs \cup {NoOff}, o \in Offs \cup {NoOff}, f \in Clocks, kd \in {"dt", "time"}}
VARIABLE r
Init == r \in Rows
Spec == Init /\ [][UNCHANGED r]_r
C == [utcName |-> r.utcName, video |-> r.video, backfill |-> r.backfill, zone |-> IF r.zoneOff = NoOff THEN "" ELSE NameOf(r.zoneOff * 60)]
V == [k |-> r.k, f |-> r.f, off |-> r.off]
M == Meaning(C, V)
\* converting keeps the instant, and there is a way back
SameInstant == M = "shown" => LET g == Shown(r.f, r.zoneOff) IN Instant(Rec(g), r.zoneOff * 60) = Point(Rec(r.f)) /\ Shown(g, -r.zoneOff) = r.f
\* without backfilling only explicit offsets and UTC appear
NoBackfill == ~r.backfill => M \in {"explicit", "utc", "none"}
ExplicitStays == r.off # NoOff <=> M = "explicit"
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Rows))
===============================================================================
