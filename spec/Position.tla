------------------------------- MODULE Position -------------------------------
(* What a read reports for a GPS position.  Coordinates are whole 1E-7 degrees, *)
(* reported values whole 1E-6 degrees.                                          *)
(*   p = [lat, lon, pos, latRef, lonRef, geo, zero]                             *)
(* lat, lon: a coordinate as reported by ExifTool:                              *)
(*   [k |-> "num", v], [k |-> "text", c] (a Coord record), "none", "bad"        *)
(* pos: the combined position, [k, lat, lon] with k "some", "none" or "bad"     *)
(* latRef, lonRef: the first letter of the reference, upper case, or ""         *)
(* geo: the place found by geolocation, like pos; zero: ignore (0, 0)           *)
EXTENDS Coord
Abs(x) == IF x < 0 THEN -x ELSE x
Degree == 10000000
Has(x) == x.k = "num" \/ (x.k = "text" /\ Whole(x.c))
\* values that x may denote (a text is rounded when it is parsed)
Cand(x) == IF x.k = "num" THEN {x.v} ELSE {10 * u : u \in Values(x.c)}
\* the coordinate used: its own tag, else the combined position
Used(x, pos, axis) == IF Has(x) THEN Cand(x) ELSE IF pos.k = "some" THEN Cand(pos[axis]) ELSE {}
Round(v) == LET m == Near(Abs(v), 10) IN IF v < 0 THEN {-x : x \in m} ELSE m
\* the signed value of v given its reference and geolocation
Flip(v, neg) == IF neg THEN -Abs(v) ELSE v
\* |a - b| against one degree (without leaving 32 bits)
Apart(a, b) == IF (a < 0) # (b < 0) /\ (Abs(a) > Degree \/ Abs(b) > Degree) THEN "more"
               ELSE IF Abs(a - b) < Degree THEN "less" ELSE IF Abs(a - b) > Degree THEN "more" ELSE "equal"
Agreed(v, geo) ==
  IF geo = {} THEN {v}
  ELSE LET g == CHOOSE x \in geo : TRUE
           near == Apart(g, v)   over == Apart(g, -v)
       IN IF near = "less" \/ over = "more" THEN {v}
          ELSE IF near = "more" /\ over = "less" THEN {-v}
          ELSE {v, -v}                                  \* exactly one degree
Signed(v, ref, minus, geo) == Agreed(Flip(v, ref = minus), geo)
Complete(p) == Used(p.lat, p.pos, "lat") # {} /\ Used(p.lon, p.pos, "lon") # {}
OutOf(vs, max) == \A v \in vs : Abs(v) > max * Degree
Lats(p) == Used(p.lat, p.pos, "lat")
Lons(p) == Used(p.lon, p.pos, "lon")
Origin(p) == Lats(p) = {0} /\ Lons(p) = {0}
Dropped(p) == Complete(p) /\ (OutOf(Lats(p), 90) \/ OutOf(Lons(p), 180) \/ (p.zero /\ Origin(p)))
GeoOf(p, axis) == IF p.geo.k = "some" THEN Cand(p.geo[axis]) ELSE {}
Kept(p) == Complete(p) /\ ~Dropped(p)
LatOut(p) == UNION {UNION {Round(w) : w \in Signed(v, p.latRef, "S", GeoOf(p, "lat"))} : v \in Lats(p)}
LonOut(p) == UNION {UNION {Round(w) : w \in Signed(v, p.lonRef, "W", GeoOf(p, "lon"))} : v \in Lons(p)}
\* the sign of every value the coordinate may have is changed by geolocation
Turned(vs, ref, minus, geo) == \A v \in vs : LET w == Flip(v, ref = minus) IN w # 0 /\ Agreed(w, geo) = {-w}
\* a reference that contradicts the reported value u
Contradicts(ref, u, plus, minus) == (u > 0 /\ ref = minus) \/ (u < 0 /\ ref = plus)
\* a correction that has to be reported in the warnings
Corrected(p, u, w) == \/ Turned(Lats(p), p.latRef, "S", GeoOf(p, "lat")) \/ Turned(Lons(p), p.lonRef, "W", GeoOf(p, "lon"))
                      \/ Contradicts(p.latRef, u, "N", "S") \/ Contradicts(p.lonRef, w, "E", "W")
RefFor(u, plus, minus) == IF u < 0 THEN {minus} ELSE IF u > 0 THEN {plus} ELSE {plus, minus}
===============================================================================
