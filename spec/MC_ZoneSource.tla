----------------------------- MODULE MC_ZoneSource -----------------------------
(* All combinations of sources and options, with one representative of each kind. *)
EXTENDS ZoneSource, Json, IOUtils, SequencesExt
CONSTANT Deep
Z(k, sec, zone) == [k |-> k, sec |-> sec, zone |-> zone]
NoZone == Z("none", 0, "")
BadZone == Z("bad", 0, "")
F0 == <<2021, 6, 15, 12, 30, 20, 0>>
Stamp(tag, k, off) == [tag |-> tag, k |-> k, f |-> F0, off |-> off]
Positions == {<<"none", NoZone, NoZone>>, <<"dropped", Z("named", 0, "Asia/Tokyo"), Z("named", 0, "Asia/Tokyo")>>}
             \cup {<<"ok", a, b>> : a \in {NoZone, Z("named", 0, "Asia/Tokyo")} \cup (IF Deep THEN {BadZone} ELSE {}), b \in {NoZone, Z("named", 0, "Europe/Paris")} \cup (IF Deep THEN {BadZone, Z("throw", 0, "")} ELSE {})}
StampSets == {<<>>, <<Stamp("CreateDate", "dt", 9999)>>, <<Stamp("DateTimeOriginal", "dt", 0), Stamp("CreateDate", "dt", -480)>>,
              <<Stamp("DateTimeOriginal", "dt", 9999), Stamp("CreateDate", "dt", 330)>>, <<Stamp("DateTimeOriginal", "junk", 9999), Stamp("TimeCreated", "time", 60)>>}
Clock(h) == [F0 EXCEPT ![4] = h]
U(k, h) == [k |-> k, f |-> Clock(h)]
Utcs == {<<U("none", 0), U("none", 0), U("none", 0), U("none", 0)>>, <<U("utc", 5), U("utc", 6), U("none", 0), U("none", 0)>>,
         <<U("zoned", 5), U("none", 0), U("utc", 7), U("utc", 8)>>, <<U("junk", 0), U("none", 0), U("none", 0), U("utc", 8)>>}
Rows == {[ex |-> <<t, o, NoZone, q>>, nikon |-> n, gps |-> p[1], geo |-> p[2], fn |-> p[3], stamps |-> s, utc |-> u, ts |-> [k |-> "dt", f |-> Clock(20), off |-> 0],
          video |-> v, optVideo |-> ov, optStamps |-> os, list |-> Captured, optTs |-> ot, prefer |-> pr] :
          t \in {NoZone, BadZone, Z("named", 0, "America/New_York")}, o \in {NoZone, Z("fixed", 3600, "")}, q \in IF Deep THEN {NoZone, Z("fixed", 0, "")} ELSE {NoZone}, n \in {FALSE, TRUE},
          p \in Positions, s \in StampSets, u \in Utcs, v \in BOOLEAN, ov \in BOOLEAN, os \in BOOLEAN, ot \in BOOLEAN, pr \in BOOLEAN}
Some(x) == /\ (x.nikon => x.ex[2].k = "fixed")                 \* otherwise it makes no difference
           /\ (~x.video => ~x.optVideo) /\ (x.gps = "none" => ~x.prefer)
Gen == {r \in Rows : Some(r)}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Gen))
VARIABLE x
Init == x \in Gen
Spec == Init /\ [][UNCHANGED x]_x
Total == Results(x) # {}
GpsFirst == x.prefer /\ Gps(x) # {None} => Results(x) = Gps(x)
TagsFirst == ~x.prefer /\ Explicit(x) # {None} => Results(x) = Explicit(x)
\* what is disabled, absent or invalid makes no difference
NoEffect == /\ (~x.optTs => Results(x) = Results([x EXCEPT !.ts = [k |-> "none", f |-> <<>>, off |-> 0]]))
            /\ (x.gps = "none" => Results(x) = Results([x EXCEPT !.fn = Z("named", 0, "Asia/Tokyo"), !.prefer = TRUE]))
            /\ (x.ex[1].k = "bad" => Results(x) = Results([x EXCEPT !.ex[1] = NoZone]))
            /\ (~x.video => Results(x) = Results([x EXCEPT !.optVideo = TRUE]))
=================================================================================
