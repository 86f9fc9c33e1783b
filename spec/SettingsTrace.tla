---------------------------- MODULE SettingsTrace ----------------------------
(* history: a whole history of one setting; lazy: of one lazy value; offsets:   *)
(* what the time zone functions say under the settings last assigned            *)
EXTENDS Settings, Zones, TraceLib
StOk(e) == CASE e.op = "history" -> HistOk(e.default, e.h)
             [] e.op = "lazy"    -> LazyOk(e.h)
             [] e.op = "offsets" -> \A i \in 1..Len(e.q) : /\ e.q[i].valid = (e.q[i].sec \in Valid(e.st))
                                                          /\ InferOk(e.st, e.q[i].sec, e.q[i].near)
StWant(e) == CASE e.op = "history" -> Run(e.default, e.h)
               [] e.op = "offsets" -> [st |-> e.st]
               [] OTHER -> "lazy"
=============================================================================
