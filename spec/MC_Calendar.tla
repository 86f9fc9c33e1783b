----------------------------- MODULE MC_Calendar -----------------------------
(* The calendar, ticking day by day: day numbers and dates agree. *)
EXTENDS Calendar
CONSTANTS From, To
VARIABLES c, day
Init == c = [y |-> From, m |-> 1, d |-> 1] /\ day = Days(From, 1, 1)
Succ(x) == IF x.d < DIM(x.y, x.m) THEN [x EXCEPT !.d = x.d + 1]
           ELSE IF x.m < 12 THEN [y |-> x.y, m |-> x.m + 1, d |-> 1] ELSE [y |-> x.y + 1, m |-> 1, d |-> 1]
Next == c.y <= To /\ c' = Succ(c) /\ day' = day + 1
Spec == Init /\ [][Next]_<<c, day>>
Agree == /\ Days(c.y, c.m, c.d) = day /\ Civil(day) = c /\ ValidDate(c.y, c.m, c.d)
         /\ \A n \in {-13, -1, 1, 11, 12, 48} : LET x == AddMonths(c, n) IN
              /\ ValidDate(x.y, x.m, x.d) /\ (x.d # c.d => x.d = DIM(x.y, x.m) /\ x.d < c.d)
              /\ x.y * 12 + x.m = c.y * 12 + c.m + n
ASSUME Days(1970, 1, 1) = 0 /\ Weekday(0) = 4 /\ Days(2000, 3, 1) = 11017 /\ Weekday(Days(2024, 2, 29)) = 4
ASSUME FieldsOf(Instant([y |-> 2024, m |-> 3, d |-> 1, h |-> 0, mi |-> 30, s |-> 0, ms |-> 7], 3600), TRUE) = [y |-> 2024, m |-> 2, d |-> 29, h |-> 23, mi |-> 30, s |-> 0, ms |-> 7]
=============================================================================
