----------------------------- MODULE PositionTrace -----------------------------
EXTENDS Position, TraceLib
\* e.p the position, e.o what was reported:
\*  [st, lat, lon ([ok, u, ex]), latRef, lonRef, gone (no GPS or geolocation tag is left), same (the position's tags are as reported),
\*   others (all other tags are there), gps (all further GPS tags are there), warn (there is a warning)]
Num7(r, vals) == r.ok /\ r.ex /\ r.u \in vals
POk(e) ==
  LET o == e.o p == e.p IN
  /\ o.st = "ok" /\ o.others
  /\ IF Dropped(p) THEN o.gone /\ o.warn
     ELSE IF Complete(p)
     THEN /\ o.gps
          /\ Num7(o.lat, LatOut(p)) /\ Num7(o.lon, LonOut(p))
          /\ o.latRef \in RefFor(o.lat.u, "N", "S") /\ o.lonRef \in RefFor(o.lon.u, "E", "W")
          /\ o.all
          /\ Corrected(p, o.lat.u, o.lon.u) => o.warn
     ELSE o.gps /\ o.same
PWant(e) == IF Dropped(e.p) THEN "dropped" ELSE IF Complete(e.p) THEN <<LatOut(e.p), LonOut(e.p)>> ELSE "as reported"
================================================================================
