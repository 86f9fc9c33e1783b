------------------------------ MODULE PoolTrace ------------------------------
(* Each line of the trace is one run: its configuration and its events.         *)
EXTENDS Pool, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, l, s

TInit == k \in 1..Len(Runs) /\ l = 1 /\ s = InitState(Runs[k].cfg)
TNext == LET ev == Runs[k].events IN
  /\ l <= Len(ev)
  /\ IF Ok(s, ev[l]) THEN TRUE
     ELSE PrintT("MISMATCH|" \o ToString(k) \o "|" \o ToString(l) \o "|" \o ToString(Bad(s, ev[l])) \o " " \o ToString(ev[l])
                 \o (IF "id" \in DOMAIN ev[l] /\ ev[l].id \in DOMAIN s.calls THEN " call " \o ToString(s.calls[ev[l].id]) ELSE "")
                 \o (IF "c" \in DOMAIN ev[l] /\ ev[l].c \in DOMAIN s.kids THEN " child " \o ToString(s.kids[ev[l].c]) ELSE ""))
  /\ l' = l + 1 /\ k' = k /\ s' = Step(s, ev[l])
TSpec == TInit /\ [][TNext]_<<k, l, s>>
=============================================================================
