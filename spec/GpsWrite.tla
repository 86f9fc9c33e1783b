------------------------------ MODULE GpsWrite ------------------------------
(* What a write of GPS tags transmits (property P07).                          *)
(*                                                                             *)
(* A tag object is a function from the names of Names to slots: "absent",      *)
(* a number [k |-> "num", n] (n is its canonical text, s its sign), "null", or  *)
(* a text [k |-> "txt", n].  The transmitted fields are such a function, too.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Coords == {"GPSLatitude", "GPSLongitude", "GPSAltitude"}
RefOf == [GPSLatitude |-> "GPSLatitudeRef", GPSLongitude |-> "GPSLongitudeRef", GPSAltitude |-> "GPSAltitudeRef"]
Refs == {"GPSLatitudeRef", "GPSLongitudeRef", "GPSAltitudeRef"}
CoordOf(r) == CHOOSE c \in Coords : RefOf[c] = r
Names == Coords \cup Refs \cup {"GPSPosition", "Title"}

Absent == [k |-> "absent", n |-> "", s |-> 0]
Null == [k |-> "null", n |-> "", s |-> 0]
IsNum(x) == x.k = "num"

\* Every spelling ExifTool accepts for a reference, as the sign it denotes; a number
\* denotes its own sign.
SpellSign(c, x) ==
  IF IsNum(x) THEN (IF x.s < 0 THEN -1 ELSE 1)
  ELSE CASE c = "GPSLatitude"  -> IF x.n \in {"N", "North", "n"} THEN 1 ELSE IF x.n \in {"S", "South", "s"} THEN -1 ELSE 9
         [] c = "GPSLongitude" -> IF x.n \in {"E", "East", "e"} THEN 1 ELSE IF x.n \in {"W", "West", "w"} THEN -1 ELSE 9
         [] OTHER -> IF x.n = "Above Sea Level" THEN 1 ELSE IF x.n = "Below Sea Level" THEN -1 ELSE 9

Given(x) == x.k \notin {"absent", "null"}
\* Is `sent` what a write of `tags` must transmit?
RefOk(tags, sent, c) ==
  LET t == tags[c] r == tags[RefOf[c]] x == sent[RefOf[c]] IN
  IF Given(r) THEN x.k = r.k /\ x.n = r.n                       \* the caller's own reference
  ELSE IF IsNum(t) THEN x.k \in {"num", "txt"} /\ (SpellSign(c, x) = (IF t.s < 0 THEN -1 ELSE 1) \/ (t.s = 0 /\ SpellSign(c, x) # 9))
  ELSE IF t.k = "null" THEN x.k = "null"
  ELSE x.k = r.k                                                \* nothing invented, an explicit clear kept
PosOk(tags, sent) ==
  LET a == tags["GPSLatitude"] o == tags["GPSLongitude"] x == sent["GPSPosition"] IN
  IF IsNum(a) /\ IsNum(o) THEN x.k = "txt" /\ x.n = a.n \o "," \o o.n
  ELSE x.k = tags["GPSPosition"].k /\ x.n = tags["GPSPosition"].n
PlainOk(tags, sent, n) == sent[n].k = tags[n].k /\ sent[n].n = tags[n].n
WriteOk(tags, sent) == /\ \A c \in Coords : PlainOk(tags, sent, c) /\ RefOk(tags, sent, c)
                       /\ PosOk(tags, sent)
                       /\ PlainOk(tags, sent, "Title")
=============================================================================
