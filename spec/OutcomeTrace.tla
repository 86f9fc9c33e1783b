---------------------------- MODULE OutcomeTrace ----------------------------
EXTENDS Outcome, TraceLib
\* events: [op, resp, out] where out is the recorded settlement
OutcomeWant(e) ==
  CASE e.op = "write"   -> WriteOutcome(e.resp)
    [] e.op = "rewrite" -> RewriteOutcome(e.resp)
    [] e.op = "version" -> [st |-> IF e.wellformed THEN "ok" ELSE "err", v |-> IF e.wellformed THEN e.text ELSE ""]
    [] e.op = "read"    -> IF Errors(e.resp) # <<>> /\ ~e.json
                           THEN [st |-> "err", msg |-> FirstError(e.resp), warnings |-> <<>>, errors |-> <<>>]
                           ELSE IF ~e.json
                           THEN [st |-> "err", msg |-> "*", warnings |-> <<>>, errors |-> <<>>]
                           ELSE [st |-> "ok", msg |-> "", warnings |-> Uniq(WarnTexts(e.resp)),
                                 errors |-> Uniq([i \in 1..Len(Errors(e.resp)) |-> Errors(e.resp)[i].text])]
OutcomeOk(e) ==
  /\ e.op = "version" \/ WellFormedResponse(e.resp)
  /\ LET w == OutcomeWant(e) IN
     IF "msg" \in DOMAIN w /\ w.msg = "*" THEN e.out = [w EXCEPT !.msg = e.out.msg] ELSE e.out = w

TInit == TLInit /\ Init
TNext == TLNext /\ UNCHANGED vars
=============================================================================
