------------------------------ MODULE MC_Options ------------------------------
(* Histories of instances and calls with options at three levels: the value a   *)
(* call works with depends only on its own level, its instance's and the         *)
(* defaults, whatever happened before (property P20).                             *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Insts, Names, Vals, MaxCalls
NONE == "none"
Levels == [Names -> Vals \cup {NONE}]
VARIABLES inst, log
Default(n) == "d"
Effective(i, call, n) == IF call[n] # NONE THEN call[n] ELSE IF inst[i][n] # NONE THEN inst[i][n] ELSE Default(n)
Init == inst \in [Insts -> Levels] /\ log = <<>>
Call(i, call) == /\ Len(log) < MaxCalls
                 /\ log' = Append(log, [i |-> i, call |-> call, eff |-> [n \in Names |-> Effective(i, call, n)]])
                 /\ UNCHANGED inst
Next == \E i \in Insts, call \in Levels : Call(i, call)
Spec == Init /\ [][Next]_<<inst, log>>
NoLeak == \A k \in 1..Len(log), m \in 1..Len(log) :
            (log[k].i = log[m].i /\ log[k].call = log[m].call) => log[k].eff = log[m].eff
OwnWins == \A k \in 1..Len(log) : \A n \in Names : log[k].call[n] # NONE => log[k].eff[n] = log[k].call[n]
=============================================================================
