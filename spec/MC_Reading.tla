------------------------------- MODULE MC_Reading -------------------------------
(* Every name with every form of value, alone, in lists and in structures.        *)
EXTENDS Reading, Json, IOUtils, SequencesExt
Forms == {"dt", "date", "time", "part", "zeros", "zero", "bin", "yes", "no", "gone", "junk", "lit", "null"}
Shapes == {"alone", "list", "struct", "liststruct"}
Rows == {r \in [name : Names, form : Forms, shape : Shapes, inner : {"When", "CreateDate", "Time", "Valid", "Field", "Sharpness"}] :
           r.shape \in {"alone", "list"} => r.inner = "Field"}
VARIABLE r
Init == r \in Rows
Spec == Init /\ [][UNCHANGED r]_r
Ks == IF r.shape \in {"alone", "list"} THEN Kinds[r.name] ELSE Inside(Kinds[r.name], r.inner)
\* something is always acceptable, and it is never both mandatory and forbidden to parse
Decided == Must(Ks, r.form) # {} /\ (Cardinality(Must(Ks, r.form)) > 1 => "raw" \in Must(Ks, r.form))
\* names that say nothing about time leave every text but binary markers alone
PlainStays == Ks = {} => Must(Ks, r.form) \subseteq {"raw", "Binary"}
JunkStays == r.form \in {"junk", "zeros"} => Must(Ks, r.form) = {"raw"}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Rows))
==================================================================================
