-------------------------------- MODULE Coord --------------------------------
(* Texts of geographic coordinates.  Values are whole millionths of a degree;  *)
(* exact ties of the rounding may go either way.                               *)
(*   c = [fmt, neg, deg, frac, min, sec, dir, ds, ms, ss, sp, tail]            *)
(* fmt: "plain" (a number), "D", "DM", "DMS"; frac: decimals (digits) of the   *)
(* last number; dir: "" or a letter; ds, ms, ss: the symbols; sp: spacing.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE DigStr(_), Num(_)
DigStr(q) == IF q = <<>> THEN "" ELSE ToString(Head(q)) \o DigStr(Tail(q))
Num(q) == IF q = <<>> THEN 0 ELSE Num(SubSeq(q, 1, Len(q) - 1)) * 10 + q[Len(q)]
Dec(n, frac) == ToString(n) \o (IF frac = <<>> THEN "" ELSE "." \o DigStr(frac))
Text(c) ==
  (IF c.neg THEN "-" ELSE "") \o
  (CASE c.fmt = "plain" -> Dec(c.deg, c.frac)
     [] c.fmt = "D" -> Dec(c.deg, c.frac) \o c.sp \o c.ds
     [] c.fmt = "DM" -> ToString(c.deg) \o c.sp \o c.ds \o c.sp \o Dec(c.min, c.frac) \o c.ms
     [] c.fmt = "DMS" -> ToString(c.deg) \o c.sp \o c.ds \o c.sp \o ToString(c.min) \o c.ms \o c.sp \o Dec(c.sec, c.frac) \o c.ss)
  \o (IF c.dir = "" THEN "" ELSE c.sp \o c.dir) \o c.tail
South(dir) == dir \in {"S", "s", "W", "w"}
Axis(dir) == IF dir \in {"N", "n", "S", "s"} THEN "lat" ELSE IF dir \in {"E", "e", "W", "w"} THEN "lon" ELSE "none"
Max(dir) == IF Axis(dir) = "lat" THEN 90 ELSE 180
\* the set of acceptable roundings of n / d
Near(n, d) == LET q == n \div d  r == n % d IN IF 2 * r < d THEN {q} ELSE IF 2 * r > d THEN {q + 1} ELSE {q, q + 1}
Pow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] k = 4 -> 10000 [] k = 5 -> 100000 [] k = 6 -> 1000000
Cut(q, k) == IF Len(q) > k THEN SubSeq(q, 1, k) ELSE q
\* magnitudes in millionths of a degree that c may be rounded to
Mags(c) ==
  LET n == Len(c.frac) IN
  CASE c.fmt \in {"plain", "D"} ->
         LET six == Num(Cut(c.frac, 6)) * Pow10(6 - (IF n > 6 THEN 6 ELSE n))
             rest == IF n > 6 THEN SubSeq(c.frac, 7, n) ELSE <<>>
             b == c.deg * 1000000 + six
         IN IF rest = <<>> \/ rest[1] < 5 THEN {b} ELSE IF rest[1] > 5 \/ Num(rest) > 5 * Pow10(Len(rest) - 1) THEN {b + 1} ELSE {b, b + 1}
    [] c.fmt = "DM" ->                                    \* minutes in 1/10000
         {c.deg * 1000000 + x : x \in Near((c.min * 10000 + Num(c.frac) * Pow10(4 - n)) * 10, 6)}
    [] c.fmt = "DMS" ->                                   \* seconds in 1/1000
         {c.deg * 1000000 + x : x \in Near((c.min * 60000 + c.sec * 1000 + Num(c.frac) * Pow10(3 - n)) * 10, 36)}
Beyond(c) == \/ c.deg > Max(c.dir)
             \/ c.deg = Max(c.dir) /\ (c.min > 0 \/ c.sec > 0 \/ Num(c.frac) > 0)
Real(c) == /\ c.fmt \in {"DM", "DMS"} => c.min < 60
           /\ c.fmt = "DMS" => c.sec < 60
           /\ c.fmt # "plain" => ~Beyond(c)
Separators == {"", " ", ",", ", "}
Whole(c) == Real(c) /\ c.tail = ""
Values(c) == IF c.neg \/ South(c.dir) THEN {-x : x \in Mags(c)} ELSE Mags(c)
=============================================================================
