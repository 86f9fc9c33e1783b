-------------------------------- MODULE Zones --------------------------------
(* Time zone offsets, in seconds east of UTC.  st is the state of the settings: *)
(* st.arch, st.baker (offsets no longer in use, UTC-12 allowed), st.tol (minutes *)
(* of tolerance), st.abbr (the caller's abbreviations).                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Off(sgn, h, m) == sgn * (h * 3600 + m * 60)
Whole == {Off(-1, h, 0) : h \in 0..11} \cup {Off(1, h, 0) : h \in 0..14}
Half == {Off(-1, 9, 30), Off(-1, 8, 30), Off(-1, 3, 30), Off(-1, 2, 30), Off(1, 3, 30), Off(1, 4, 30), Off(1, 5, 30), Off(1, 5, 45), Off(1, 6, 30),
         Off(1, 8, 30), Off(1, 8, 45), Off(1, 9, 30), Off(1, 9, 45), Off(1, 10, 30), Off(1, 12, 45), Off(1, 13, 45)}
Current == Whole \cup Half
Archaic == {Off(-1, 10, 30), Off(-1, 4, 30), Off(-1, 0, 44), -1521, Off(1, 0, 20), Off(1, 0, 30), Off(1, 1, 24), Off(1, 1, 30), Off(1, 2, 30),
            Off(1, 4, 51), Off(1, 5, 40), Off(1, 7, 20), Off(1, 7, 30)}
Baker == Off(-1, 12, 0)
CurA == Current \cup Archaic
CurB == Current \cup {Baker}
CurAB == CurA \cup {Baker}
Valid(st) == IF st.arch THEN IF st.baker THEN CurAB ELSE CurA ELSE IF st.baker THEN CurB ELSE Current
Abs(x) == IF x < 0 THEN -x ELSE x
\* near is what was inferred for a difference of d seconds: [ok, sec]
InferOk(st, d, near) ==
  IF near.ok THEN near.sec \in Valid(st) /\ Abs(near.sec - d) <= st.tol * 60 /\ \A o \in Valid(st) : Abs(near.sec - d) <= Abs(o - d)
  ELSE \A o \in Valid(st) : Abs(o - d) > st.tol * 60
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
\* the one name of an offset
NameOf(sec) == LET a == Abs(sec) \div 60 h == a \div 60 m == a % 60 IN
  IF sec = 0 THEN "UTC" ELSE "UTC" \o (IF sec < 0 THEN "-" ELSE "+") \o ToString(h) \o (IF m = 0 THEN "" ELSE ":" \o Pad2(m))
\* "+08:00"
ShortOf(sec) == LET a == Abs(sec) \div 60 IN (IF sec < 0 THEN "-" ELSE "+") \o Pad2(a \div 60) \o ":" \o Pad2(a % 60)

(* Spellings of an offset: prefix, sign, hours, and if any minutes and seconds. *)
\* sp = [pre, sign, h, hw (digits of the hours), m (-1: none), colon, s (-1: none)]
SpText(sp) == sp.pre \o sp.sign \o (IF sp.hw = 2 THEN Pad2(sp.h) ELSE ToString(sp.h))
              \o (IF sp.m < 0 THEN "" ELSE (IF sp.colon THEN ":" ELSE "") \o Pad2(sp.m)) \o (IF sp.s < 0 THEN "" ELSE ":" \o Pad2(sp.s))
SpSec(sp) == (IF sp.sign = "+" THEN 1 ELSE -1) * (sp.h * 3600 + (IF sp.m < 0 THEN 0 ELSE sp.m) * 60 + (IF sp.s < 0 THEN 0 ELSE sp.s))
SpDenotes(st, sp) == sp.h <= 14 /\ sp.m < 60 /\ sp.s < 60 /\ SpSec(sp) \in Valid(st)

(* Abbreviations that denote one offset wherever they are used, in minutes.      *)
AbbrMin == [UTC |-> 0, GMT |-> 0, NST |-> -210, NDT |-> -150, ADT |-> -180, EST |-> -300, EDT |-> -240, CDT |-> -300, MST |-> -420, MDT |-> -360,
  PST |-> -480, PDT |-> -420, AKST |-> -540, AKDT |-> -480, HST |-> -600, WET |-> 0, WEST |-> 60, CET |-> 60, CEST |-> 120, EET |-> 120, EEST |-> 180,
  MSK |-> 180, TRT |-> 180, WAT |-> 60, CAT |-> 120, SAST |-> 120, EAT |-> 180, IRST |-> 210, IRDT |-> 270, AFT |-> 270, PKT |-> 300, NPT |-> 345,
  MMT |-> 390, ICT |-> 420, SGT |-> 480, HKT |-> 480, PHT |-> 480, JST |-> 540, KST |-> 540, AWST |-> 480, ACST |-> 570, ACDT |-> 630, AEST |-> 600,
  AEDT |-> 660, NZST |-> 720, NZDT |-> 780, CHAST |-> 765, CHADT |-> 825, COT |-> -300, PET |-> -300, VET |-> -240, BOT |-> -240, CLT |-> -240,
  CLST |-> -180, ART |-> -180, BRT |-> -180, UYT |-> -180, CVT |-> -60, AZOT |-> -60, MUT |-> 240, SCT |-> 240]
\* the caller's own come first; st.abbr is a sequence of [k, min]
Own(st, k) == SelectSeq(st.abbr, LAMBDA a : a.k = k)
AbbrSec(st, k) == IF Own(st, k) # <<>> THEN [ok |-> TRUE, sec |-> Own(st, k)[1].min * 60]
                  ELSE IF k \in DOMAIN AbbrMin THEN [ok |-> TRUE, sec |-> AbbrMin[k] * 60] ELSE [ok |-> FALSE, sec |-> 0]
AbbrDenotes(st, k) == AbbrSec(st, k).ok /\ AbbrSec(st, k).sec \in Valid(st)
=============================================================================
