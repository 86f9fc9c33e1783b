---------------------------- MODULE ZoneSourceTrace ----------------------------
EXTENDS ZoneSource, TraceLib
SOk(e) == e.st = "ok" /\ <<e.zone, e.src>> \in Results(e.x) /\ e.tz = e.zone
SWant(e) == Results(e.x)
=================================================================================
