----------------------------- MODULE MC_TimeText -----------------------------
(* Boundary dates and times in every form.  Texts of one form are unambiguous: *)
(* two real dates with the same text are equal.                                 *)
EXTENDS TimeText, Json, IOUtils, SequencesExt
Ys == {0, 1, 2, 99, 1899, 1900, 1970, 2000, 2019, 2020, 2023, 9999}
Dates == {[y |-> y, m |-> m, d |-> d] : y \in Ys, m \in {0, 1, 2, 3, 4, 11, 12, 13}, d \in {0, 1, 15, 28, 29, 30, 31, 32}}
Times == {[h |-> h, mi |-> mi, s |-> s] : h \in {0, 1, 2, 12, 23, 24, 25}, mi \in {0, 30, 59, 60}, s \in {0, 59, 60}}
Fracs == {<<>>, <<0>>, <<5>>, <<0, 7>>, <<0, 0, 0>>, <<9, 9, 9>>, <<0, 0, 1>>, <<1, 2, 3, 4>>, <<9, 9, 9, 9, 9>>}
VARIABLES form, a, b
Init == form \in DateForms /\ a \in Dates /\ b \in {x \in Dates : x.y \in {99, 2000, 2020} /\ x.m \in {1, 2, 11, 12}}
Spec == Init /\ [][UNCHANGED <<form, a, b>>]_<<form, a, b>>
Injective == DateText(form, a) = DateText(form, b) => a = b
\* the day after a real day is real; the day after 28 February is 29 February exactly in leap years
Successor == ValidDate(a.y, a.m, a.d) /\ a.y > 0 => LET n == NextDay([a EXCEPT !.y = @] @@ [h |-> 24, mi |-> 0, s |-> 0, ms |-> -1]) IN ValidDate(n.y, n.m, n.d) /\ Days(n.y, n.m, n.d) = Days(a.y, a.m, a.d) + 1
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[k |-> "date", v |-> x] : x \in Dates}) \o SetToSeq({[k |-> "time", v |-> x] : x \in Times}) \o SetToSeq({[k |-> "frac", v |-> x] : x \in Fracs})
                                   \o SetToSeq({[k |-> "df", v |-> x] : x \in DateForms}) \o SetToSeq({[k |-> "lf", v |-> x] : x \in LooseForms}) \o SetToSeq({[k |-> "yf", v |-> x] : x \in DayForms}))
=============================================================================
