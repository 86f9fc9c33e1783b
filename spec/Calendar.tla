------------------------------ MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar.  A point in time is <<day, ms>>: days since *)
(* 1970-01-01 and milliseconds of that day, both of UTC or of a local clock.     *)
EXTENDS Integers, Sequences
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DIM(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
ValidDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DIM(y, m)
DayMs == 86400000
\* days since 1970-01-01, for years >= 0
Days(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
Civil(day) ==
  LET z == day + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> doy - (153 * mp + 2) \div 5 + 1]
Weekday(day) == ((day + 3) % 7) + 1               \* 1: Monday
\* carry milliseconds into days
Norm(day, ms) == <<day + ms \div DayMs, ms % DayMs>>
AddSec(p, sec) == Norm(p[1] + sec \div 86400, p[2] + (sec % 86400) * 1000)
AddMs(p, ms) == Norm(p[1] + ms \div DayMs, p[2] + (ms % DayMs))
\* months past the end of a month stop at its last day
AddMonths(c, n) == LET t == c.y * 12 + (c.m - 1) + n  y == t \div 12  m == (t % 12) + 1
                   IN [y |-> y, m |-> m, d |-> IF c.d > DIM(y, m) THEN DIM(y, m) ELSE c.d]
\* wall-clock fields f = [y, m, d, h, mi, s, ms], ms < 0: none
Point(f) == <<Days(f.y, f.m, f.d), ((f.h * 60 + f.mi) * 60 + f.s) * 1000 + (IF f.ms < 0 THEN 0 ELSE f.ms)>>
FieldsOf(p, hasMs) == LET c == Civil(p[1]) t == p[2] \div 1000 IN
  [y |-> c.y, m |-> c.m, d |-> c.d, h |-> t \div 3600, mi |-> (t \div 60) % 60, s |-> t % 60, ms |-> IF hasMs \/ p[2] % 1000 # 0 THEN p[2] % 1000 ELSE -1]
\* the instant of wall-clock fields at an offset of sec seconds east
Instant(f, sec) == AddSec(Point(f), -sec)
Local(p, sec) == AddSec(p, sec)
=============================================================================
