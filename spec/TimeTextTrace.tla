---------------------------- MODULE TimeTextTrace ----------------------------
EXTENDS TimeText, TraceLib
Zones == INSTANCE Zones
\* texts of offsets that are no longer in use (some named zones had them) are not read back
CurrentOff(o) == ~o.hasZone \/ o.off \in Zones!Current
F(e) == [y |-> e.f.y, m |-> e.f.m, d |-> e.f.d, h |-> e.f.h, mi |-> e.f.mi, s |-> e.f.s, ms |-> e.f.ms]
\* e.z: kind of the zone: "none", "text" (an offset in the text), "def" (default zone of the caller); secs: offsets it may have
ZoneOk(e, o) == CASE e.z.kind = "none" -> ~o.hasZone /\ o.inf = "f"
                  [] e.z.kind = "text" -> o.hasZone /\ o.inf = "f" /\ \E i \in DOMAIN e.z.secs : o.off = e.z.secs[i]
                  [] e.z.kind = "def" -> o.hasZone /\ o.inf = "t" /\ o.zone = e.z.name /\ \E i \in DOMAIN e.z.secs : o.off = e.z.secs[i]
Trips(e) == e.res.ok /\ e.res.y <= 9999 => Sound(e.res) /\ (CurrentOff(e.res) => Again(e.res, e.rexif) /\ Again(e.res, e.riso)) /\ e.json = e.res /\ e.res.raw = e.text
Is(o, f) == o.ok /\ Fields(o) = f
\* parse: a timestamp in one of the regular forms
ParseOk(e) ==
  /\ e.text = DateText(e.df, e.f) \o TimeText(e.tf, e.f, e.frac) \o e.z.text
  /\ e.f.ms = FracMs(e.frac)
  /\ IF e.nope THEN TRUE
     ELSE IF Real(e.f) THEN Is(e.res, F(e)) /\ ZoneOk(e, e.res)
     ELSE IF Midnight(e.f) THEN e.res.ok /\ e.f.y >= 100 => Is(e.res, NextDay(e.f))
     ELSE ~e.res.ok
  /\ Trips(e)
\* loose: with the name of the month; a day of the week must be the right one
LooseOk(e) ==
  /\ e.text = LooseText(e.lf, e.f, e.wd) \o e.z.text
  /\ IF Real(e.f) /\ (HasWd(e.lf) => e.wd = Weekday(Days(e.f.y, e.f.m, e.f.d)))
     THEN e.res.ok /\ [Fields(e.res) EXCEPT !.ms = -1] = F(e) /\ e.res.ms \in {-1, 0} /\ (e.z.kind # "none" => ZoneOk(e, e.res)) /\ (e.z.kind = "none" => ~e.res.hasZone)
     ELSE IF Midnight(e.f) THEN TRUE ELSE ~e.res.ok
  /\ Trips(e)
\* fuzz: any text at all; nums are the numbers in it (and of its month names)
FuzzOk(e) == LET N == {e.nums[i] : i \in DOMAIN e.nums} IN
  /\ e.res.ok => /\ e.res.y \in N /\ e.res.m \in N /\ e.res.d \in N /\ e.res.mi \in N
                 /\ \E n \in N : e.res.h = n \/ (e.ampm /\ e.res.h % 12 = n % 12)
                 /\ e.res.s \in N \cup {0}
  /\ Trips(e)
DTrips(e) == e.res.ok /\ e.res.y <= 9999 => /\ ValidDate(e.res.y, IF e.res.m = 0 THEN 1 ELSE e.res.m, IF e.res.d = 0 THEN 1 ELSE e.res.d) /\ (e.res.m = 0 => e.res.d = 0)
                         /\ \A r \in {e.rexif, e.riso} : r.ok /\ r.y = e.res.y /\ r.m = e.res.m /\ r.d = e.res.d
                         /\ e.json = e.res
                         /\ LET T(c) == {y \o (IF e.res.m = 0 THEN "" ELSE c \o Pad2(e.res.m)) \o (IF e.res.d = 0 THEN "" ELSE c \o Pad2(e.res.d)) : y \in {ToString(e.res.y), Pad4(e.res.y)}}
                            IN e.res.exif \in T(":") /\ e.res.iso \in T("-")
\* day: a date; m, d = 0 where the text has none
DayOk(e) ==
  LET p == DayPart(e.yf)
      want == [y |-> e.f.y, m |-> IF p = "y" THEN 0 ELSE e.f.m, d |-> IF p = "ymd" THEN e.f.d ELSE 0]
      got(o) == [y |-> o.y, m |-> o.m, d |-> o.d]
      real == ValidDate(e.f.y, IF p = "y" THEN 1 ELSE e.f.m, IF p = "ymd" THEN e.f.d ELSE 1) /\ e.f.y <= 9999
  IN /\ e.text = DayText(e.yf, e.f)
     /\ IF real /\ e.f.y >= 1 THEN e.res.ok /\ got(e.res) = want ELSE IF real THEN (e.res.ok => got(e.res) = want) ELSE ~e.res.ok
     /\ DTrips(e)
DayFuzzOk(e) == LET N == {e.nums[i] : i \in DOMAIN e.nums} IN (e.res.ok => e.res.y \in N /\ e.res.m \in N \cup {0} /\ e.res.d \in N \cup {0}) /\ DTrips(e)
\* time: a time of day
TTrips(e) == e.res.ok => /\ RealTime(e.res) /\ e.res.ms \in -1..999 /\ (e.res.hasZone <=> e.res.zone # "")
                         /\ CurrentOff(e.res) => LET r == e.rexif IN r.ok /\ r.h = e.res.h /\ r.mi = e.res.mi /\ r.s = e.res.s /\ r.ms = e.res.ms /\ r.hasZone = e.res.hasZone /\ r.off = e.res.off
                         /\ e.res.exif = Clock(e.res) \o (IF e.res.hasZone THEN ShortOf(e.res.off) ELSE "") /\ e.res.iso = e.res.exif
                         /\ e.json = e.res
TimeOk(e) ==
  /\ e.text = TimeText(e.tf, e.f, e.frac) \o e.z.text
  /\ e.f.ms = FracMs(e.frac)
  /\ IF RealTime(e.f) THEN e.res.ok /\ e.res.h = e.f.h /\ e.res.mi = e.f.mi /\ e.res.s = e.f.s /\ e.res.ms = e.f.ms /\ ZoneOk(e, e.res) /\ e.res.raw = e.text
     ELSE IF e.f.h = 24 /\ e.f.mi = 0 /\ e.f.s = 0 /\ e.f.ms <= 0 THEN e.res.ok => e.res.h = 0
     ELSE ~e.res.ok
  /\ TTrips(e)
TimeFuzzOk(e) == LET N == {e.nums[i] : i \in DOMAIN e.nums} IN (e.res.ok => e.res.h \in N /\ e.res.mi \in N /\ e.res.s \in N \cup {0}) /\ TTrips(e)
\* rj: a value and what became of it through JSON, in a canonical notation
RjOk(e) == e.a = e.b
TOk(e) == CASE e.op = "parse" -> ParseOk(e) [] e.op = "loose" -> LooseOk(e) [] e.op = "fuzz" -> FuzzOk(e) [] e.op = "day" -> DayOk(e) [] e.op = "dayfuzz" -> DayFuzzOk(e)
            [] e.op = "time" -> TimeOk(e) [] e.op = "timefuzz" -> TimeFuzzOk(e) [] e.op = "rj" -> RjOk(e)
TWant(e) == CASE e.op = "parse" -> <<e.text, Real(e.f)>>
              [] e.op \in {"loose", "fuzz", "day", "dayfuzz", "time", "timefuzz"} -> e.text
              [] OTHER -> ""
=============================================================================
