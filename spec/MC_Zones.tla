------------------------------- MODULE MC_Zones -------------------------------
(* Spellings of offsets and settings.  Over all of them: spellings of one offset *)
(* have one name, the name is again a spelling of that offset, and inference      *)
(* always has an answer exactly within the tolerance.                            *)
EXTENDS Zones, Json, IOUtils, SequencesExt
CONSTANT Pres
Sts == {[arch |-> a, baker |-> b, tol |-> t, abbr |-> <<>>] : a \in BOOLEAN, b \in BOOLEAN, t \in {15, 30}}
Sps == {[pre |-> p, sign |-> g, h |-> h, hw |-> w, m |-> m, colon |-> c, s |-> s] :
          p \in Pres, g \in {"+", "-"}, h \in 0..16, w \in {1, 2}, m \in {-1, 0, 20, 24, 25, 30, 40, 44, 45, 51, 60}, c \in BOOLEAN, s \in {-1, 0, 21, 60}}
Real(sp) == /\ sp.hw = 1 => sp.h < 10
            /\ sp.m < 0 => ~sp.colon /\ sp.s < 0
            /\ sp.s >= 0 => sp.colon
VARIABLES st, sp
Init == st \in Sts /\ sp \in {x \in Sps : Real(x)}
Spec == Init /\ [][UNCHANGED <<st, sp>>]_<<st, sp>>
\* the name of an offset, read as a spelling
NameSp(sec) == LET a == Abs(sec) \div 60 IN [pre |-> "UTC", sign |-> IF sec < 0 THEN "-" ELSE "+", h |-> a \div 60, hw |-> IF a \div 60 < 10 THEN 1 ELSE 2,
                                            m |-> IF a % 60 = 0 THEN -1 ELSE a % 60, colon |-> a % 60 # 0, s |-> -1]
Idempotent == SpDenotes(st, sp) /\ SpSec(sp) % 60 = 0 /\ SpSec(sp) # 0 =>
                /\ SpText(NameSp(SpSec(sp))) = NameOf(SpSec(sp))
                /\ SpDenotes(st, NameSp(SpSec(sp))) /\ SpSec(NameSp(SpSec(sp))) = SpSec(sp)
Nearest == LET d == SpSec(sp) IN \/ InferOk(st, d, [ok |-> FALSE, sec |-> 0])
                                 \/ \E o \in Valid(st) : InferOk(st, d, [ok |-> TRUE, sec |-> o])
Monotone == Valid([st EXCEPT !.arch = FALSE, !.baker = FALSE]) \subseteq Valid(st)
Rows == {x \in Sps : Real(x)}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[sp |-> x, text |-> SpText(x)] : x \in Rows}))
=============================================================================
