------------------------------ MODULE ZoneSource ------------------------------
(* Which time zone a read reports, and from where.  x describes what the file   *)
(* has and the options:                                                         *)
(*  ex      explicit zones, in order of TagNames: [k, zone, sec]; k: "none",     *)
(*          "fixed" (sec seconds east), "named", "bad"                           *)
(*  nikon   a Nikon that says that daylight savings are on                       *)
(*  gps     "none", "ok" or "dropped"; geo, fn: the zone of the geolocation tag  *)
(*          and of the lookup function (k also "throw")                          *)
(*  stamps  capture times [tag, k, f, off]; k: "dt", "time", "junk"; off minutes *)
(*          or 9999; f: year, month, day, hour, minute, second, ms               *)
(*  utc     UTC times in order of UtcNames: [k, f]; k: "none", "utc", "zoned",   *)
(*          "junk"                                                               *)
(*  ts      the TimeStamp tag [k, f, off]                                        *)
(*  video, optVideo, optStamps, list, optTs, prefer                              *)
EXTENDS Zones, Calendar
TagNames == <<"TimeZone", "OffsetTimeOriginal", "OffsetTimeDigitized", "TimeZoneOffset">>
Captured == <<"SubSecDateTimeOriginal", "SubSecCreateDate", "DateTimeOriginal", "CreateDate", "MediaCreateDate", "CreationDate", "DateTimeCreated", "TimeCreated">>
UtcNames == <<"GPSDateTime", "DateTimeUTC", "GPSDateTimeStamp", "SonyDateTime2">>
None == <<"", "">>
\* a source is the set of results it may give; None: it says nothing
Else(a, b) == (a \ {None}) \cup (IF None \in a THEN b ELSE {})
Zoned(z) == z.k \in {"fixed", "named"}
Named(z) == IF z.k = "fixed" THEN NameOf(z.sec) ELSE z.zone
FirstIn(n, P(_)) == IF \E i \in 1..n : P(i) THEN CHOOSE i \in 1..n : P(i) /\ \A j \in 1..(i - 1) : ~P(j) ELSE 0
Explicit(x) ==
  LET i == FirstIn(4, LAMBDA j : Zoned(x.ex[j])) IN
  IF i = 0 THEN {None}
  ELSE IF x.nikon /\ x.ex[i].k = "fixed" /\ x.ex[i].sec + 3600 \in Current THEN {<<NameOf(x.ex[i].sec + 3600), TagNames[i] \o " (adjusted for DaylightSavings)">>}
  ELSE {<<Named(x.ex[i]), TagNames[i]>>}
Gps(x) == IF x.gps # "ok" THEN {None}
          ELSE IF Zoned(x.geo) THEN {<<Named(x.geo), "GeolocationTimeZone">>}
          ELSE IF Zoned(x.fn) THEN {<<Named(x.fn), "GPSLatitude/GPSLongitude">>} ELSE {None}
StampOf(x, tag) == LET q == SelectSeq(x.stamps, LAMBDA s : s.tag = tag) IN IF q = <<>> THEN [tag |-> tag, k |-> "none", f |-> <<>>, off |-> 9999] ELSE q[1]
Stamps(x) ==
  LET S(i) == StampOf(x, x.list[i])
      i == FirstIn(Len(x.list), LAMBDA j : S(j).k \in {"dt", "time"} /\ S(j).off \notin {9999, 0})
  IN IF ~x.optStamps \/ i = 0 THEN {None} ELSE {<<NameOf(S(i).off * 60), x.list[i]>>}
Video(x) == IF x.video /\ x.optVideo THEN {<<"UTC", "defaultVideosToUTC">>} ELSE {None}
Far == 999999
\* seconds between two wall clocks
Between(a, b) == LET d == Days(a[1], a[2], a[3]) - Days(b[1], b[2], b[3]) IN
                 IF d > 3 \/ d < -3 THEN Far ELSE d * 86400 + (a[4] - b[4]) * 3600 + (a[5] - b[5]) * 60 + a[6] - b[6]
Closest(d) == LET near == {o \in Current : Abs(o - d) <= 1800} IN {o \in near : \A p \in near : Abs(o - d) <= Abs(p - d)}
\* clocks are read to the second or better
Inferred(d, src) == UNION {IF Closest(e) = {} THEN {None} ELSE {<<NameOf(o), src>> : o \in Closest(e)} : e \in {d - 1, d, d + 1}}
UtcWith(x, useGps) ==
  LET i == FirstIn(4, LAMBDA j : x.utc[j].k = "utc" /\ (useGps \/ UtcNames[j] \notin {"GPSDateTime", "GPSDateTimeStamp"}))
      j == FirstIn(Len(Captured), LAMBDA n : StampOf(x, Captured[n]).k = "dt" /\ StampOf(x, Captured[n]).off = 9999)
  IN IF i = 0 \/ j = 0 THEN {None}
     ELSE Inferred(Between(StampOf(x, Captured[j]).f, x.utc[i].f), "offset between " \o Captured[j] \o " and " \o UtcNames[i])
\* whether the time of a dropped position may be used is left open
Utc(x) == UtcWith(x, TRUE) \cup (IF x.gps = "dropped" THEN UtcWith(x, FALSE) ELSE {})
RECURSIVE TsFrom(_, _)
TsFrom(x, i) ==
  IF i > Len(x.list) THEN {None}
  ELSE LET s == StampOf(x, x.list[i]) IN
       IF s.k # "dt" THEN TsFrom(x, i + 1)
       ELSE IF s.off # 9999 THEN {<<NameOf(s.off * 60), s.tag>>}
       ELSE LET d == Between(s.f, x.ts.f) + x.ts.off * 60 IN
            Else(UNION {Inferred(e, "offset between " \o s.tag \o " and TimeStamp") : e \in {d - 60, d, d + 60}}, TsFrom(x, i + 1))
Ts(x) == IF ~x.optTs \/ x.ts.k = "none" THEN {None} ELSE TsFrom(x, 1)
Rest(x) == Else(Stamps(x), Else(Video(x), Else(Utc(x), Ts(x))))
Results(x) == IF x.prefer THEN Else(Gps(x), Else(Explicit(x), Rest(x))) ELSE Else(Explicit(x), Else(Gps(x), Rest(x)))
================================================================================
