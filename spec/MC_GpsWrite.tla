----------------------------- MODULE MC_GpsWrite -----------------------------
(* A caller edits one tag object between writes.  A write derives the missing   *)
(* fields from the object as it is at that moment.                              *)
EXTENDS GpsWrite, Json, IOUtils, SequencesExt
CONSTANTS Depth, Full
Num(n, s) == [k |-> "num", n |-> n, s |-> s]
Txt(n) == [k |-> "txt", n |-> n, s |-> 0]
Vals == [GPSLatitude  |-> {Absent, Null, Num("12.5", 1), Num("-33", -1)} \cup (IF Full THEN {Num("0", 0), Txt("12 N")} ELSE {}),
         GPSLongitude |-> {Absent, Null, Num("151.25", 1), Num("-0.5", -1)} \cup (IF Full THEN {Txt("12 E")} ELSE {}),
         GPSAltitude  |-> {Absent, Null, Num("8848", 1), Num("-430.5", -1)},
         GPSLatitudeRef |-> {Absent, Txt("S"), Txt("N")},
         GPSLongitudeRef |-> {Absent, Txt("W")},
         GPSAltitudeRef |-> {Absent, Txt("Below Sea Level")},
         GPSPosition |-> {Absent} \cup (IF Full THEN {Txt("1, 2")} ELSE {}),
         Title |-> {Txt("t")}]
Derive(tags) ==
  [n \in Names |->
    IF n \in Refs THEN LET t == tags[CoordOf(n)] IN
         IF Given(tags[n]) THEN tags[n] ELSE IF IsNum(t) THEN t ELSE IF t.k = "null" THEN Null ELSE tags[n]
    ELSE IF n = "GPSPosition" /\ IsNum(tags["GPSLatitude"]) /\ IsNum(tags["GPSLongitude"])
         THEN Txt(tags["GPSLatitude"].n \o "," \o tags["GPSLongitude"].n)
    ELSE tags[n]]
VARIABLES obj, sent, sentFor, hist
vars == <<obj, sent, sentFor, hist>>
Empty == [n \in Names |-> IF n = "Title" THEN Txt("t") ELSE Absent]
Init == obj = Empty /\ sent = <<>> /\ sentFor = <<>> /\ hist = <<>>
Edit(n, v) == /\ Len(hist) < Depth /\ v # obj[n]
              /\ obj' = [obj EXCEPT ![n] = v] /\ hist' = Append(hist, [do |-> "set", n |-> n, v |-> v])
              /\ UNCHANGED <<sent, sentFor>>
Write == /\ Len(hist) < Depth /\ (IF hist = <<>> THEN TRUE ELSE Last(hist).do # "write")
         /\ sent' = <<Derive(obj)>> /\ sentFor' = <<obj>>
         /\ hist' = Append(hist, [do |-> "write", n |-> "", v |-> Absent])
         /\ UNCHANGED obj
Next == Write \/ \E n \in Names : \E v \in Vals[n] : Edit(n, v)
Spec == Init /\ [][Next]_vars
Correct == sent # <<>> => WriteOk(sentFor[1], sent[1])
\* no stale reference: a derived reference agrees with the coordinate of the same write
NeverStale == sent # <<>> => \A c \in Coords : IsNum(sentFor[1][c]) /\ ~Given(sentFor[1][RefOf[c]]) => sent[1][RefOf[c]].s = sentFor[1][c].s
\* a write does not touch the caller's object
ObjectKept == [][Write => obj' = obj]_vars
ASSUME Cardinality(Coords) = Cardinality(Refs)
\* single objects to replay
Rec(a, o, h, ar, or, hr, p) == [GPSLatitude |-> a, GPSLongitude |-> o, GPSAltitude |-> h, GPSLatitudeRef |-> ar,
                                GPSLongitudeRef |-> or, GPSAltitudeRef |-> hr, GPSPosition |-> p, Title |-> Txt("t")]
Objects == {Rec(a, o, h, ar, or, hr, p) : a \in Vals.GPSLatitude, o \in Vals.GPSLongitude, h \in Vals.GPSAltitude,
            ar \in Vals.GPSLatitudeRef, or \in Vals.GPSLongitudeRef, hr \in Vals.GPSAltitudeRef, p \in Vals.GPSPosition}
AllCorrect == \A o \in Objects : WriteOk(o, Derive(o))
ASSUME AllCorrect
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Objects))
=============================================================================
