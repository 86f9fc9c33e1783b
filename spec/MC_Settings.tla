----------------------------- MODULE MC_Settings -----------------------------
(* Callers' programs over two settings-like objects are enumerated; an abstract  *)
(* implementation that delivers each change to a snapshot of the observers,      *)
(* whatever order and whichever of them fail, unsubscribe or set again, only     *)
(* makes histories of Settings.tla.  A cache that is derived from the setting    *)
(* and cleared on change is never stale when it is read outside of a delivery.   *)
EXTENDS Settings, TLC, Json, IOUtils
CONSTANTS Obs, Vals, Default, MaxOps, MaxNest
Kinds == {"plain", "throw", "unself", "unother", "again"}
VARIABLES s, stack, kind, ops, cache
vars == <<s, stack, kind, ops, cache>>
Other(i) == CHOOSE j \in Obs : j # i
Init == s = S0(Default) /\ stack = <<>> /\ ops = 0 /\ kind \in [Obs -> Kinds] /\ cache = -1
\* the cache's own observer comes first
Request(v) == s' = Change(s, v) /\ cache' = IF v = s.value THEN cache ELSE -1
Top == /\ stack = <<>> /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED kind
       /\ \/ \E i \in Obs \ s.reg : s' = Step(s, [op |-> "sub", i |-> i]) /\ UNCHANGED <<stack, cache>>
          \/ \E i \in s.reg : s' = Step(s, [op |-> "unsub", i |-> i]) /\ UNCHANGED <<stack, cache>>
          \/ \E v \in Vals : Request(v) /\ stack' = <<IF v = s.value THEN {} ELSE s.reg>>
          \/ cache' = (IF cache = -1 THEN s.value ELSE cache) /\ UNCHANGED <<s, stack>>
Deliver == /\ stack # <<>> /\ UNCHANGED <<kind, ops>>
           /\ LET k == Len(stack) todo == stack[k] IN
              IF todo = {} THEN s' = Done(s) /\ stack' = Front(stack) /\ UNCHANGED cache
              ELSE \E i \in todo :
                LET c == Last(s.open)
                    rest == [stack EXCEPT ![k] = @ \ {i}]
                    t == Call(s, i, c.o, c.n) IN
                IF i \notin s.reg THEN s' = s /\ stack' = rest /\ UNCHANGED cache
                ELSE CASE kind[i] = "unself"  -> s' = Unsub(t, i) /\ stack' = rest /\ UNCHANGED cache
                       [] kind[i] = "unother" -> s' = Unsub(t, Other(i)) /\ stack' = rest /\ UNCHANGED cache
                       [] kind[i] = "again" /\ k <= MaxNest -> \E v \in Vals : /\ v # t.value
                              /\ s' = Change(t, v) /\ cache' = -1 /\ stack' = Append(rest, t.reg)
                       [] OTHER -> s' = t /\ stack' = rest /\ UNCHANGED cache
Next == Top \/ Deliver
Spec == Init /\ [][Next]_vars
AlwaysOk == s.ok
NoneLeft == stack = <<>> => s.open = <<>>
Fresh == cache \in {-1, s.value}
\* programs for the conformance run: kinds of three observers and a list of operations
Op == [o : {"sub", "unsub"}, i : Obs, v : {0}] \cup [o : {"set"}, i : {0}, v : Vals] \cup [o : {"reset"}, i : {0}, v : {0}]
Gen == {[kind |-> <<a, b>>, ops |-> <<[o |-> "sub", i |-> 1, v |-> 0], [o |-> "sub", i |-> 2, v |-> 0], x, y, z>>] : a \in Kinds, b \in Kinds, x \in Op, y \in Op, z \in Op}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Gen))
=============================================================================
