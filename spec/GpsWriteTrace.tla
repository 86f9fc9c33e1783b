---------------------------- MODULE GpsWriteTrace ----------------------------
EXTENDS GpsWrite, TraceLib
\* write: obj is the caller's object at the call, sent the fields transmitted, once;
\* kept tells whether the caller's object and options were left as they were
\* file: the same through the real ExifTool; sign is the sign read back per coordinate
Sign(x) == IF x.s < 0 THEN -1 ELSE 1
FileOk(e, c) == LET t == e.obj[c] r == e.obj[RefOf[c]] IN
  IF IsNum(t) /\ t.s # 0 /\ ~Given(r) THEN e.read[c].has /\ e.read[c].s = Sign(t) /\ e.read[c].near /\ e.read[c].refS = Sign(t)
  ELSE t.k = "null" => ~e.read[c].has /\ ~e.read[c].hasRef
GpsOk(e) == CASE e.op = "write" -> e.st = "ok" /\ e.n = 1 /\ e.kept /\ WriteOk(e.obj, e.sent)
              [] e.op = "file"  -> e.st = "ok" /\ \A c \in Coords : FileOk(e, c)
GpsWant(e) == [c \in Coords |-> <<e.obj[c].k, e.obj[c].n, e.obj[RefOf[c]].n>>]
=============================================================================
