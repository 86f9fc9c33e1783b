------------------------------ MODULE MC_Position ------------------------------
(* Positions at the boundaries with every reference and geolocation result.      *)
EXTENDS Position, Json, IOUtils, SequencesExt
N(v) == [k |-> "num", v |-> v]
None == [k |-> "none"]
Bad == [k |-> "bad"]
Hemi == {-950000000, -900000000, -455000000, -3000000, 0, 4, 2000000, 455000004, 900000000, 900000010}
Lon == {-1800000010, -1220000000, -2000000, 0, 3, 9000000, 1800000000, 1810000000}
Geos == {<<455100000, 1220100000>>, <<-455100000, -1220100000>>, <<100000, -200000>>, <<0, 0>>, <<-2500000, 2500000>>, <<300000000, 300000000>>, <<446000000, 1211000000>>}
Ps == {[lat |-> N(a), lon |-> N(o), pos |-> None, latRef |-> r, lonRef |-> q, geo |-> IF g = <<>> THEN None ELSE [k |-> "some", lat |-> N(g[1]), lon |-> N(g[2])], zero |-> z] :
        a \in Hemi, o \in Lon, r \in {"", "N", "S", "X"}, q \in {"", "E", "W", "N"}, g \in Geos \cup {<<>>}, z \in BOOLEAN}
     \cup
      {[lat |-> x, lon |-> y, pos |-> s, latRef |-> r, lonRef |-> "", geo |-> None, zero |-> z] :
        x \in {N(0), N(455000004), N(950000000), None, Bad}, y \in {N(0), N(-1220000000), None, Bad}, r \in {"", "S"}, z \in BOOLEAN,
        s \in {None, Bad} \cup {[k |-> "some", lat |-> N(a), lon |-> N(o)] : a \in {-455000000, 0, 910000000}, o \in {0, 1220000000, 1900000000}}}
VARIABLE p
Init == p \in Ps
Spec == Init /\ [][UNCHANGED p]_p
\* reporting a reported position again changes nothing
Again(u, w, r, q) == [p EXCEPT !.lat = N(10 * u), !.lon = N(10 * w), !.pos = None, !.latRef = r, !.lonRef = q, !.zero = FALSE]
Stable == Kept(p) => \A u \in LatOut(p), w \in LonOut(p) :
   /\ \A r \in RefFor(u, "N", "S"), q \in RefFor(w, "E", "W") : Cardinality(LatOut(p)) = 1 => LatOut(Again(u, w, r, q)) = {u}
   /\ Abs(u) <= 90000000 /\ Abs(w) <= 180000000
Magnitude == Kept(p) => \A u \in LatOut(p) : \E v \in Lats(p) : Abs(Abs(v) - 10 * Abs(u)) <= 5
SouthIsNegative == Kept(p) /\ p.latRef = "S" /\ p.geo.k = "none" => \A u \in LatOut(p) : u <= 0
NearStays == Kept(p) /\ p.geo.k = "some" /\ p.latRef = "" => \A v \in Lats(p), u \in LatOut(p) : Apart(v, p.geo.lat.v) = "less" => u \in Round(v)
OneOf == Dropped(p) => Complete(p)
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Ps))
================================================================================
