------------------------------ MODULE WireTrace ------------------------------
EXTENDS Wire, TraceLib
\* A call transmits exactly its command, or is refused and transmits nothing; further
\* transmissions can only be identical retries, which the driver switches off.
CallOk(e) == IF MustReject(e) THEN e.st = "err" /\ e.sent = <<>>
             ELSE /\ Absolute(e)
                  /\ Len(e.sent) = 1
                  /\ CommandOk(e.sent[1], Threads(e))
\* an option that acts on the answer: the observed effect is that of the effective value
Unset == "\\-"
Effective(e) == IF e.vcall # Unset THEN e.vcall ELSE IF e.vinst # Unset THEN e.vinst ELSE e.vdef
\* what must not change: defaults, an instance's options, the caller's objects
WireOk(e) == CASE e.op = "probe" -> e.obs = Effective(e)
               [] e.op = "frame" -> e.before = e.after
               [] OTHER -> CallOk(e)
WireWant(e) == IF e.op = "probe" THEN <<Effective(e)>>
               ELSE IF e.op = "frame" THEN <<e.before>>
               ELSE IF MustReject(e) THEN <<"refused">> ELSE <<"sent", Tidy(Threads(e))>>
=============================================================================
