------------------------------- MODULE MC_Coord -------------------------------
(* Coordinates at the boundaries, in every form.  Over all of them: accepted   *)
(* values are in range, hemispheres mirror each other, and the three forms of   *)
(* one coordinate have a common value.                                          *)
EXTENDS Coord, Json, IOUtils, SequencesExt
Degs == {0, 1, 45, 89, 90, 91, 179, 180, 181}
Mins == {0, 1, 30, 59, 60}
Secs == {0, 29, 59, 60}
Fracs == {<<>>, <<0>>, <<5>>, <<9, 9, 9>>, <<0, 0, 1>>, <<1, 2, 3, 4>>, <<1, 2, 3, 4, 5, 6, 5>>, <<9, 9, 9, 9, 9, 9, 9>>}
NoSym == [ds |-> "", ms |-> "", ss |-> ""]
Base == {[fmt |-> f, neg |-> n, deg |-> d, min |-> m, sec |-> s, frac |-> fr, dir |-> k, ds |-> "deg", ms |-> "'", ss |-> "\"", sp |-> " ", tail |-> ""] :
           f \in {"plain", "D", "DM", "DMS"}, n \in BOOLEAN, d \in Degs, m \in Mins, s \in Secs, fr \in Fracs, k \in {"", "N", "S", "E", "W"}}
Sane(c) == /\ c.fmt \in {"plain", "D"} => c.min = 0 /\ c.sec = 0
           /\ c.fmt = "DM" => c.sec = 0 /\ Len(c.frac) <= 4
           /\ c.fmt = "DMS" => Len(c.frac) <= 3
           /\ c.fmt = "plain" => c.dir = ""
VARIABLE c
Init == c \in {x \in Base : Sane(x)}
Spec == Init /\ [][UNCHANGED c]_c
InRange == Real(c) /\ c.fmt # "plain" => \A v \in Values(c) : v <= Max(c.dir) * 1000000 /\ -v <= Max(c.dir) * 1000000
Mirror == c.dir = "N" /\ ~c.neg => Values([c EXCEPT !.dir = "S"]) = {-v : v \in Values(c)}
Forms == c.fmt = "DM" /\ c.frac = <<>> => /\ Mags(c) = Mags([c EXCEPT !.fmt = "DMS", !.sec = 0])
                                          /\ (c.min = 30 => Mags(c) = Mags([c EXCEPT !.fmt = "D", !.min = 0, !.frac = <<5>>]))
AtMostTwo == Cardinality(Mags(c)) \in 1..2
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({x \in Base : Sane(x)}))
=============================================================================
