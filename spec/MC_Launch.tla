------------------------------ MODULE MC_Launch -------------------------------
(* Configurations, and a pool that starts, loses and replaces children while       *)
(* listeners come and go: what it reports is what StepOk allows.                   *)
EXTENDS Launch, Json, IOUtils
CONSTANTS MaxOps, MaxKids
Envs == {[x \in {} |-> ""], [HOME |-> "/h"], [LANG |-> "de_DE", A |-> "1 2"], [EXIFTOOL_HOME |-> "/e"], [EXIFTOOL_HOME |-> " ", B |-> ""]}
ArgLists == {<<"unset">>, StayOpen, <<"-config", "", "-stay_open", "True", "-@", "-">>, <<"-stay_open", "True", "-@", "-", "-common_args", "-m">>}
Configs == {[path |-> p, shebang |-> s, args |-> a, env |-> e, home |-> h, factory |-> f] :
              p \in {"text", "promise", "fn", "asyncfn", "blank", "unset"}, s \in {"unset", "yes", "no"}, a \in ArgLists, e \in Envs, h \in {"", " ", "/host home"}, f \in BOOLEAN}
ASSUME \A c \in Configs : /\ Env(c)["LANG"] = "C"
                          /\ DOMAIN Env(c) \subseteq DOMAIN c.env \cup {"LANG", "EXIFTOOL_HOME"}
                          /\ \A x \in DOMAIN c.env \ {"LANG", "EXIFTOOL_HOME"} : Env(c)[x] = c.env[x]
                          /\ ~Blank(HomeOf(c.env)) => HomeOf(Env(c)) = HomeOf(c.env)
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Configs))

\* an implementation: live children, and two listeners told of each start and end
VARIABLES live, broken, ended, queue, l1, l2, sub, n, s, agreed
vars == <<live, broken, ended, queue, l1, l2, sub, n, s, agreed>>
Init == /\ live = 0 /\ broken = FALSE /\ ended = FALSE /\ queue = 0 /\ l1 = <<0, 0>> /\ l2 = <<0, 0>> /\ sub = TRUE /\ n = 0
        /\ s = Start /\ agreed = TRUE
Tell(a, b) == /\ l1' = <<l1[1] + a, l1[2] + b>> /\ l2' = IF sub THEN <<l2[1] + a, l2[2] + b>> ELSE l2
Judge(e) == /\ agreed' = (agreed /\ StepOk(s, e, MaxKids)) /\ s' = StepTo(s, e) /\ n' = n + 1
Ev(op, k, good, bad, fails) ==
  [op |-> op, n |-> k, good |-> good, bad |-> bad, failures |-> fails, starts |-> l1'[1], ends |-> l1'[2], s2 |-> l2'[1], e2 |-> l2'[2], before |-> 1, over |-> 1]
Call == \E k \in 1..2 :
          IF ended THEN Tell(0, 0) /\ UNCHANGED <<live, queue>> /\ Judge(Ev("call", k, 0, k, 0))
          ELSE IF broken THEN Tell(0, 0) /\ queue' = queue + k /\ UNCHANGED live /\ Judge(Ev("call", k, 0, 0, 1))
          ELSE \E m \in 0..(MaxKids - live) : live + m >= 1 /\ Tell(m, 0) /\ live' = live + m /\ UNCHANGED queue /\ Judge(Ev("call", k, k, 0, 0))
Lose(op) == /\ ~ended /\ (op # "break" => ~broken) /\ Tell(0, live) /\ live' = 0 /\ UNCHANGED queue /\ Judge(Ev(op, 0, 0, 0, 0))
Mend == /\ broken /\ ~ended /\ \E m \in 0..MaxKids : (queue > 0 => m >= 1) /\ (queue = 0 => m = 0) /\ Tell(m, 0) /\ live' = m /\ queue' = 0 /\ Judge(Ev("mend", 0, queue, 0, 0))
Off == /\ sub /\ Tell(0, 0) /\ UNCHANGED <<live, queue>> /\ Judge(Ev("off", 0, 0, 0, 0))
End == /\ Tell(0, live) /\ live' = 0 /\ queue' = 0 /\ Judge(Ev("end", 0, 0, queue, 0))
Next == /\ n < MaxOps
        /\ \/ Call /\ UNCHANGED <<broken, ended, sub>>
           \/ \E op \in {"close", "kill"} : Lose(op) /\ UNCHANGED <<broken, ended, sub>>
           \/ Lose("break") /\ ~broken /\ broken' = TRUE /\ UNCHANGED <<ended, sub>>
           \/ Mend /\ broken' = FALSE /\ UNCHANGED <<ended, sub>>
           \/ Off /\ sub' = FALSE /\ UNCHANGED <<broken, ended>>
           \/ End /\ ended' = TRUE /\ UNCHANGED <<broken, sub>>
Spec == Init /\ [][Next]_vars
Agreed == agreed
Track == s.broken = broken /\ s.ended = ended /\ s.pend = queue /\ s.sub = sub /\ s.starts = l1[1]
Told == sub => l1 = l2
=============================================================================
