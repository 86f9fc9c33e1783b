------------------------------ MODULE ReadStamps ------------------------------
(* Zone and wall clock of the timestamps of a read.                              *)
(*  c = [utcName, video, backfill, zone]: the tag's name says UTC, the file is a *)
(*  video whose times default to UTC, zones are backfilled, the read's zone      *)
(*  ("" for none)                                                                *)
(*  v = [k, f, off]: what the tag's text says; k: "dt" or "time"; off: minutes   *)
(*  or 9999; f: year, month, day, hour, minute, second, millisecond              *)
(* Offsets of the read's zone are facts: at: its offsets (minutes) at the        *)
(* instant that f denotes in UTC; here: those with which f is on its clocks.     *)
EXTENDS Zones, Calendar
NoOff == 9999
\* what the timestamp is taken for
Meaning(c, v) == CASE v.off # NoOff -> "explicit"
                   [] c.utcName -> "utc"
                   [] c.video -> IF c.backfill /\ c.zone # "" THEN "shown" ELSE "utc"
                   [] c.backfill /\ c.zone # "" -> "declared"
                   [] OTHER -> "none"
Rec(f) == [y |-> f[1], m |-> f[2], d |-> f[3], h |-> f[4], mi |-> f[5], s |-> f[6], ms |-> f[7]]
Tuple(r) == <<r.y, r.m, r.d, r.h, r.mi, r.s, IF r.ms < 0 THEN 0 ELSE r.ms>>
\* wall clock of the UTC time f at off minutes
Shown(f, off) == Tuple(FieldsOf(AddSec(Point(Rec(f)), off * 60), TRUE))
In(o, q) == \E i \in 1..Len(q) : q[i] = o
StampOk(c, v, at, here, o) ==
  LET m == Meaning(c, v) IN
  /\ o.k = "DateTime" /\ o.raw = v.s
  /\ CASE m = "explicit" -> o.f = v.f /\ o.off = v.off /\ ~o.inferred /\ o.zone = NameOf(v.off * 60)
       [] m = "utc" -> o.f = v.f /\ o.off = 0 /\ o.inferred /\ o.zone = "UTC"
       [] m = "shown" -> In(o.off, at) /\ o.f = Shown(v.f, o.off) /\ o.inferred /\ o.zone = c.zone
       [] m = "declared" -> o.inferred /\ o.zone = c.zone /\ (Len(here) > 0 => o.f = v.f /\ In(o.off, here))
       [] m = "none" -> o.f = v.f /\ o.off = NoOff /\ o.zone = ""
  \* the instant, for those that have one
  /\ (m \in {"explicit", "utc", "shown"} => LET p == Instant(Rec(v.f), IF m = "explicit" THEN v.off * 60 ELSE 0) IN o.at = p)
  /\ (m = "declared" /\ Len(here) > 0 => o.at = Instant(Rec(v.f), o.off * 60))
\* times of day have no date: they are never converted
TimeOk(c, v, o) ==
  LET m == Meaning(c, v) IN
  /\ o.k = "Time" /\ o.raw = v.s /\ o.f = SubSeq(v.f, 4, 7)
  /\ CASE m = "explicit" -> o.zone = NameOf(v.off * 60)
       [] c.utcName \/ c.video -> o.zone = "UTC"
       [] m = "declared" -> o.zone = c.zone
       [] OTHER -> o.zone = ""
=================================================================================
