---------------------------- MODULE WriteEncTrace ----------------------------
EXTENDS WriteEnc, TraceLib
\* wire: a write was transmitted; text is the code points after "-TAG="
\* file: a write went through the real ExifTool; got is the value read back
EncOk(e) ==
  CASE e.op = "wire" -> IF MustRefuse(e.type, e.v) THEN e.st = "refused"
                        ELSE e.st = "sent" /\ Decode(e.type, e.text) = Expected(e.type, e.v)
    [] e.op = "file" -> IF MustRefuse(e.type, e.v) THEN e.st = "refused"
                        ELSE e.st = "sent" /\ e.got = Expected(e.type, e.v)
EncWant(e) == IF MustRefuse(e.type, e.v) THEN <<"refused">>
              ELSE IF e.op = "wire" /\ e.st = "sent" THEN <<Expected(e.type, e.v), "decoded", Decode(e.type, e.text)>>
              ELSE <<Expected(e.type, e.v)>>
=============================================================================
