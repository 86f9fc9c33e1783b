------------------------------- MODULE MC_Utf8 -------------------------------
(* All byte strings over one representative (or both ends) of each class of      *)
(* bytes, up to a length.                                                        *)
EXTENDS Utf8, TLC, Json, IOUtils
CONSTANTS MaxLen
Alpha == {0, 65, 127, 128, 143, 144, 159, 160, 189, 190, 191, 193, 194, 223, 224, 225, 237, 239, 240, 241, 244, 245, 255}
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E b \in Alpha : s' = Append(s, b)
Spec == Init /\ [][Next]_s
\* what is reported is itself wellformed, and is repaired to itself
Idempotent == LET u == EncAll(Reported(s)) IN Wellformed(u) /\ Reported(u) = Reported(s)
\* valid text without NULs is reported unchanged
Unchanged == Wellformed(s) => EncAll(Reported(s)) = NoNul(s)
Marked == ~Wellformed(NoNul(s)) => Rep \in {Reported(s)[i] : i \in 1..Len(Reported(s))}
Codes == \A i \in 1..Len(Reported(s)) : LET c == Reported(s)[i] IN c >= 0 /\ c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343)
Strings(n) == [1..n -> Alpha]
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[s |-> x] : x \in Strings(1) \cup Strings(2)} \cup {[s |-> <<a>> \o x] : a \in {194, 224, 225, 237, 239, 240, 244, 245, 65}, x \in Strings(2)}))
=============================================================================
