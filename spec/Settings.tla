------------------------------- MODULE Settings -------------------------------
(* One observable setting.  A history is a sequence of events:                 *)
(*   sub i, unsub i        observer i registers / unregisters                  *)
(*   set v, reset          a change is requested (also from within observers)   *)
(*   call i o n            observer i is told of a change from o to n           *)
(*   done                  the request begun last has returned (or thrown)      *)
(*   read v                the value read                                      *)
(* s.open holds the changes being delivered, innermost last.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

S0(default) == [value |-> default, default |-> default, reg |-> {}, open |-> <<>>, ok |-> TRUE]
Bad(s) == [s EXCEPT !.ok = FALSE]
Change(s, v) == IF v = s.value THEN [s EXCEPT !.open = Append(@, [o |-> v, n |-> v, due |-> {}, may |-> {}])]
                ELSE [s EXCEPT !.value = v, !.open = Append(@, [o |-> s.value, n |-> v, due |-> s.reg, may |-> {}])]
\* an observer that registers while a change is being delivered may or may not hear of it
Sub(s, i) == [s EXCEPT !.reg = @ \cup {i}, !.open = [k \in 1..Len(@) |-> IF i \in @[k].due THEN @[k] ELSE [@[k] EXCEPT !.may = @ \cup {i}]]]
Unsub(s, i) == [s EXCEPT !.reg = @ \ {i}, !.open = [k \in 1..Len(@) |-> [@[k] EXCEPT !.due = @ \ {i}, !.may = @ \ {i}]]]
Call(s, i, o, n) ==
  LET hits == {k \in 1..Len(s.open) : s.open[k].o = o /\ s.open[k].n = n /\ i \in s.open[k].due \cup s.open[k].may}
      k == CHOOSE x \in hits : \A y \in hits : y <= x IN
  IF o # n /\ hits # {} THEN [s EXCEPT !.open[k].due = @ \ {i}, !.open[k].may = @ \ {i}] ELSE Bad(s)
Done(s) == IF s.open # <<>> /\ Last(s.open).due = {} THEN [s EXCEPT !.open = Front(@)] ELSE Bad(s)
Step(s, e) == CASE e.op = "sub"   -> Sub(s, e.i)
                [] e.op = "unsub" -> Unsub(s, e.i)
                [] e.op = "set"   -> Change(s, e.v)
                [] e.op = "reset" -> Change(s, s.default)
                [] e.op = "call"  -> Call(s, e.i, e.o, e.n)
                [] e.op = "done"  -> Done(s)
                [] e.op = "read"  -> IF e.v = s.value THEN s ELSE Bad(s)
\* the prefix up to the first event that is not a step
Run(default, h) == FoldLeft(LAMBDA s, e : IF s.ok THEN Step(s, e) ELSE s, S0(default), h)
HistOk(default, h) == Run(default, h).ok /\ Run(default, h).open = <<>>

(* A lazily computed value.  Events: call r n made (the call's outcome r, how   *)
(* many computations ran since the start, and the outcome of the last), clear.   *)
L0 == [have |-> FALSE, val |-> "", n |-> 0, ok |-> TRUE]
LStep(s, e) == CASE e.op = "clear" -> [s EXCEPT !.have = FALSE]
                 [] e.op = "call" /\ s.have -> IF e.r = s.val /\ e.n = s.n THEN s ELSE [s EXCEPT !.ok = FALSE]
                 [] e.op = "call" -> IF e.n = s.n + 1 /\ e.r = e.made THEN [s EXCEPT !.have = TRUE, !.val = e.r, !.n = e.n] ELSE [s EXCEPT !.ok = FALSE]
LazyOk(h) == FoldLeft(LAMBDA s, e : IF s.ok THEN LStep(s, e) ELSE s, L0, h).ok
=============================================================================
