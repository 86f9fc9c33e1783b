------------------------------- MODULE TimeText -------------------------------
(* Texts of dates, times and timestamps: how they are written, which of them   *)
(* denote a real date and time, and what is observable of the parsed value.    *)
(* An observed timestamp is a record                                           *)
(*   ok, y m d h mi s ms (-1: no fraction), hasZone, off (seconds east), zone,  *)
(*   inf ("t"/"f"/"u"), raw, day msod (its instant), exif, iso (its texts)      *)
EXTENDS Calendar, TLC, FiniteSets
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Pad3(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
Pad4(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n) ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
Months == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>
Mons == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Wdays == <<"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun">>
RECURSIVE Digits(_)
Digits(q) == IF q = <<>> THEN "" ELSE ToString(Head(q)) \o Digits(Tail(q))
\* milliseconds of a fraction written as a sequence of digits
FracMs(q) == IF q = <<>> THEN -1 ELSE LET D(i) == IF Len(q) >= i THEN q[i] ELSE 0 IN 100 * D(1) + 10 * D(2) + D(3)

DateForms == {"y:MM:dd ", "y:M:d ", "y-MM-ddT", "y-MM-dd ", "y-M-d "}
DateText(form, f) ==
  CASE form = "y:MM:dd "  -> Pad4(f.y) \o ":" \o Pad2(f.m) \o ":" \o Pad2(f.d) \o " "
    [] form = "y:M:d "    -> ToString(f.y) \o ":" \o ToString(f.m) \o ":" \o ToString(f.d) \o " "
    [] form = "y-MM-ddT"  -> Pad4(f.y) \o "-" \o Pad2(f.m) \o "-" \o Pad2(f.d) \o "T"
    [] form = "y-MM-dd "  -> Pad4(f.y) \o "-" \o Pad2(f.m) \o "-" \o Pad2(f.d) \o " "
    [] form = "y-M-d "    -> ToString(f.y) \o "-" \o ToString(f.m) \o "-" \o ToString(f.d) \o " "
TimeForms == {"HH:mm", "HH:mm:ss", "HH:mm:ss.u"}
TimeText(form, f, frac) == Pad2(f.h) \o ":" \o Pad2(f.mi) \o (IF form = "HH:mm" THEN "" ELSE ":" \o Pad2(f.s)) \o (IF form = "HH:mm:ss.u" THEN "." \o Digits(frac) ELSE "")
\* texts with names of months
LooseForms == {"MMM d y HH:mm:ss", "MMM d y, HH:mm:ss", "ccc MMM d HH:mm:ss y", "ccc d MMM y h:mm:ss a", "ccc d MMM y HH:mm:ss", "d MMM y h:mm:ss a", "d MMM y HH:mm:ss"}
LooseText(form, f, wd) ==
  LET mon == Mons[f.m]  d == ToString(f.d)  y == ToString(f.y)
      t == Pad2(f.h) \o ":" \o Pad2(f.mi) \o ":" \o Pad2(f.s)
      ap == ToString(((f.h + 11) % 12) + 1) \o ":" \o Pad2(f.mi) \o ":" \o Pad2(f.s) \o (IF f.h < 12 THEN " AM" ELSE " PM")
  IN CASE form = "MMM d y HH:mm:ss"  -> mon \o " " \o d \o " " \o y \o " " \o t
       [] form = "MMM d y, HH:mm:ss" -> mon \o " " \o d \o " " \o y \o ", " \o t
       [] form = "ccc MMM d HH:mm:ss y" -> Wdays[wd] \o " " \o mon \o " " \o d \o " " \o t \o " " \o y
       [] form = "ccc d MMM y h:mm:ss a" -> Wdays[wd] \o " " \o d \o " " \o mon \o " " \o y \o " " \o ap
       [] form = "ccc d MMM y HH:mm:ss" -> Wdays[wd] \o " " \o d \o " " \o mon \o " " \o y \o " " \o t
       [] form = "d MMM y h:mm:ss a" -> d \o " " \o mon \o " " \o y \o " " \o ap
       [] form = "d MMM y HH:mm:ss" -> d \o " " \o mon \o " " \o y \o " " \o t
HasWd(form) == form \in {"ccc MMM d HH:mm:ss y", "ccc d MMM y h:mm:ss a", "ccc d MMM y HH:mm:ss"}
\* texts of dates alone; a month or day of 0 means none
DayForms == {"y:MM:dd", "y:M:d", "y-MM-dd", "y:MM", "y-MM", "y:M", "y-M", "y", "MMM d y", "MMMM d y"}
DayText(form, f) ==
  CASE form = "y:MM:dd" -> Pad4(f.y) \o ":" \o Pad2(f.m) \o ":" \o Pad2(f.d)
    [] form = "y:M:d" -> ToString(f.y) \o ":" \o ToString(f.m) \o ":" \o ToString(f.d)
    [] form = "y-MM-dd" -> Pad4(f.y) \o "-" \o Pad2(f.m) \o "-" \o Pad2(f.d)
    [] form = "y:MM" -> Pad4(f.y) \o ":" \o Pad2(f.m)
    [] form = "y-MM" -> Pad4(f.y) \o "-" \o Pad2(f.m)
    [] form = "y:M" -> ToString(f.y) \o ":" \o ToString(f.m)
    [] form = "y-M" -> ToString(f.y) \o "-" \o ToString(f.m)
    [] form = "y" -> Pad4(f.y)
    [] form = "MMM d y" -> Mons[f.m] \o " " \o ToString(f.d) \o " " \o ToString(f.y)
    [] form = "MMMM d y" -> Months[f.m] \o " " \o ToString(f.d) \o " " \o ToString(f.y)
DayPart(form) == IF form \in {"y:MM", "y-MM", "y:M", "y-M"} THEN "ym" ELSE IF form = "y" THEN "y" ELSE "ymd"

RealTime(f) == f.h \in 0..23 /\ f.mi \in 0..59 /\ f.s \in 0..59
Real(f) == ValidDate(f.y, f.m, f.d) /\ f.y >= 2 /\ RealTime(f)
\* the end of a day may be written as 24:00:00: the start of the next one
Midnight(f) == f.h = 24 /\ f.mi = 0 /\ f.s = 0 /\ f.ms <= 0 /\ ValidDate(f.y, f.m, f.d) /\ f.y >= 1
NextDay(f) == FieldsOf(<<Days(f.y, f.m, f.d) + 1, 0>>, f.ms >= 0)

Abs(x) == IF x < 0 THEN -x ELSE x
ShortOf(sec) == LET a == Abs(sec) \div 60 IN (IF sec < 0 THEN "-" ELSE "+") \o Pad2(a \div 60) \o ":" \o Pad2(a % 60)
Fields(o) == [y |-> o.y, m |-> o.m, d |-> o.d, h |-> o.h, mi |-> o.mi, s |-> o.s, ms |-> o.ms]
Clock(o) == Pad2(o.h) \o ":" \o Pad2(o.mi) \o ":" \o Pad2(o.s) \o (IF o.ms < 0 THEN "" ELSE "." \o Pad3(o.ms))
\* what a value is written as
ExifTexts(o) == {y \o ":" \o Pad2(o.m) \o ":" \o Pad2(o.d) \o " " \o Clock(o) \o (IF o.hasZone THEN ShortOf(o.off) ELSE "") : y \in {ToString(o.y), Pad4(o.y)}}
IsoTexts(o) == {Pad4(o.y) \o "-" \o Pad2(o.m) \o "-" \o Pad2(o.d) \o "T" \o Clock(o) \o z : z \in IF ~o.hasZone THEN {""} ELSE IF o.off = 0 THEN {"Z", "+00:00"} ELSE {ShortOf(o.off)}}
\* an observed timestamp is consistent in itself
Sound(o) == /\ Real(o) /\ o.ms \in -1..999 /\ o.valid
            /\ (o.hasZone => o.off \in -86400..86400 /\ <<o.day, o.msod>> = Instant(Fields(o), o.off))
            /\ (o.hasZone <=> o.zone # "")
            /\ (o.off % 60 = 0 => o.exif \in ExifTexts(o) /\ o.iso \in IsoTexts(o))
\* r is o, written and read again: an offset, but no zone name, is written
Again(o, r) == /\ r.ok /\ Fields(r) = Fields(o) /\ r.hasZone = o.hasZone
               /\ (o.hasZone => r.off = o.off /\ r.day = o.day /\ r.msod = o.msod /\ r.inf = "f")
=============================================================================
