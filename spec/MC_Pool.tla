------------------------------- MODULE MC_Pool -------------------------------
(* Exhaustive exploration of Pool, and (with Hist) generation of schedules.     *)
EXTENDS Pool, Json
CONSTANTS NCalls, NKids, CallKinds, Outs, MaxProcs, MaxTasks, Retries, MaxFaults, MaxCloses, MayEnd, EndFrom, Hist

VARIABLES s, hist, faults
vars == <<s, hist, faults>>

CallId(i) == "c" \o ToString(i)
KidId(i) == "k" \o ToString(i)
NextCall == Cardinality(DOMAIN s.calls) + 1
NextKid == Cardinality(DOMAIN s.kids) + 1
Toks == UNION {{Tries(s, id)[i].tok : i \in 1..Len(Tries(s, id))} : id \in DOMAIN s.calls} \ {""}
TokSeqs == {<<>>} \cup {<<t>> : t \in Toks}

Env(e) == hist' = (IF Hist THEN Append(hist, e) ELSE hist)
Do(e) == Ok(s, e) /\ s' = Step(s, e)

MInit == s = InitState([maxProcs |-> MaxProcs, maxTasks |-> MaxTasks, retries |-> Retries, lossy |-> FALSE, health |-> FALSE])
         /\ hist = <<>> /\ faults = 0

Fresh(c) == ~Abandoned(s, c) /\ s.kids[c].served < MaxTasks
Waiting == {id \in OpenCalls(s) : ~s.calls[id].late /\ (Tries(s, id) = <<>> \/ (Failed(LastTry(s, id)) /\ Len(Tries(s, id)) < Budget(s, s.calls[id].kind)))}

\* the environment
Call == /\ NextCall <= NCalls
        /\ \E k \in CallKinds : LET e == [ev |-> "call", id |-> CallId(NextCall), kind |-> k] IN Do(e) /\ Env(e)
        /\ UNCHANGED faults
Rel == \E c \in DOMAIN s.kids : /\ s.kids[c].busy # "" /\ s.kids[c].st = "up"
       /\ \E o \in Outs : LET id == s.kids[c].busy
                              e == [ev |-> "rel", c |-> c, id |-> id, out |-> o, tok |-> id \o "t" \o ToString(Len(Tries(s, id)))]
                          IN Do(e) /\ Env([ev |-> "rel", id |-> id, out |-> o])
       /\ UNCHANGED faults
Fault == /\ faults < MaxFaults /\ faults' = faults + 1
         /\ \E c \in DOMAIN s.kids, w \in {"crash", "hang"} :
               /\ s.kids[c].busy # "" /\ s.kids[c].st = "up"
               /\ Do([ev |-> w, c |-> c]) /\ Env([ev |-> w, id |-> s.kids[c].busy])
Close == /\ s.epoch < MaxCloses /\ NextCall > 1 /\ ~s.ended /\ Do([ev |-> "close"]) /\ Env([ev |-> "close"]) /\ UNCHANGED faults
End == /\ ~s.ended /\ MayEnd /\ NextCall > EndFrom /\ Do([ev |-> "end"]) /\ Env([ev |-> "end"]) /\ UNCHANGED faults
\* the pool
Quiet == UNCHANGED <<hist, faults>>
Start == /\ ~s.ended /\ NextKid <= NKids /\ Waiting # {}
         /\ Cardinality({c \in DOMAIN s.kids : Fresh(c)}) < MaxProcs
         /\ Do([ev |-> "start", c |-> KidId(NextKid)]) /\ Quiet
Recv == \E c \in DOMAIN s.kids, id \in OpenCalls(s) : Do([ev |-> "recv", c |-> c, id |-> id]) /\ Quiet
Settle == /\ \E id \in OpenCalls(s), st \in {"ok", "err"}, t \in TokSeqs, w \in TokSeqs :
               Do([ev |-> "settle", id |-> id, st |-> st, toks |-> t, warns |-> w])
          /\ Quiet
EndOk == s.ended /\ ~s.endok /\ Do([ev |-> "endok"]) /\ Quiet

MNext == Call \/ Rel \/ Fault \/ Close \/ End \/ Start \/ Recv \/ Settle \/ EndOk
MSpec == MInit /\ [][MNext]_vars
FairSpec == MSpec /\ WF_vars(Rel) /\ WF_vars(Start) /\ WF_vars(Recv) /\ WF_vars(Settle)

\* ---- the properties -----------------------------------------------------------------
OwnTokens(id) == {Tries(s, id)[i].tok : i \in 1..Len(Tries(s, id))}
P01_OwnAnswer == \A id \in DOMAIN s.calls : \A i \in 1..Len(s.calls[id].toks) : s.calls[id].toks[i] \in OwnTokens(id)
P01_LastAnswer == \A id \in DOMAIN s.calls : s.calls[id].st = "ok" => Tries(s, id) # <<>> /\
    (s.calls[id].kind \notin VoidKinds => s.calls[id].toks = <<LastTry(s, id).tok>>)
P01_Once == [][\A id \in DOMAIN s.calls : s.calls[id].st # "open" => s'.calls[id].st = s.calls[id].st /\ s'.calls[id].toks = s.calls[id].toks]_s
P02_WritesOnce == \A id \in DOMAIN s.calls : s.calls[id].kind \in OnceKinds => Len(Tries(s, id)) <= 1
P02_Bounded == \A id \in DOMAIN s.calls : Len(Tries(s, id)) <= 1 + Retries
P02_OneAtATime == \A id \in DOMAIN s.calls : Cardinality({i \in 1..Len(Tries(s, id)) : Tries(s, id)[i].st = "serving"}) <= 1
P02_StopsOnSuccess == \A id \in DOMAIN s.calls : \A i \in 1..(Len(Tries(s, id)) - 1) : Tries(s, id)[i].st # "good"
P03_NothingAfterEnd == \A id \in DOMAIN s.calls : s.calls[id].late => Tries(s, id) = <<>> /\ s.calls[id].st # "ok"
P04_MaxProcs == Cardinality(Serving(s)) <= MaxProcs
P04_MaxTasks == \A c \in DOMAIN s.kids : s.kids[c].served <= MaxTasks
P04_OneTask == \A c, d \in DOMAIN s.kids : c # d /\ s.kids[c].busy # "" /\ s.kids[c].busy = s.kids[d].busy => Abandoned(s, c) \/ Abandoned(s, d)
\* P01/P03: every call settles
AllSettle == []<>(OpenCalls(s) = {} \/ NextKid > NKids)

\* schedules: printed once everything is over
Over == NextCall > NCalls /\ OpenCalls(s) = {} /\ (MayEnd => s.ended)
Emit == (Hist /\ Over) => PrintT("GEN|" \o ToJson(hist))
=============================================================================
