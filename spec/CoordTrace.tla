------------------------------ MODULE CoordTrace ------------------------------
EXTENDS Coord, TraceLib
\* res: [ok, u (millionths), ex (is u exact), dir]
Has(r, vals) == r.ok /\ r.ex /\ r.u \in vals
\* one: a single coordinate; must: in a form the library documents
OneOk(e) == /\ e.text = Text(e.c)
            /\ IF Whole(e.c) THEN (e.must => e.res.ok) /\ (e.res.ok => Has(e.res, Values(e.c)) /\ (e.c.fmt = "plain" \/ e.res.dir = Axis(e.c.dir)))
               ELSE IF Real(e.c) /\ e.c.tail \in Separators THEN e.res.ok => Has(e.res, Values(e.c))
               ELSE ~e.res.ok
            \* as decimal degrees with a letter, only
            /\ IF e.c.fmt = "D" /\ Whole(e.c) /\ e.c.dir # "" THEN (e.must => e.dec.ok) /\ (e.dec.ok => Has(e.dec, Values(e.c)))
               ELSE e.dec.ok => Real(e.c) /\ e.c.tail \in Separators /\ Has(e.dec, Values(e.c)) /\ e.c.dir # "" /\ e.c.fmt = "D"
\* two: a position; a, b: its parts, sep between them
TwoOk(e) ==
  LET a == e.a b == e.b
      axes == {Axis(a.dir), Axis(b.dir)}
      plain == a.fmt = "plain" /\ b.fmt = "plain"
      good == IF plain THEN e.sep # "" /\ b.tail = "" /\ a.tail = "" ELSE Whole(a) /\ Real(b) /\ b.tail \in Separators /\ axes = {"lat", "lon"}
      la == IF plain \/ Axis(a.dir) = "lat" THEN a ELSE b
      lo == IF plain \/ Axis(a.dir) = "lat" THEN b ELSE a
  IN /\ e.text = Text(a) \o e.sep \o Text(b)
     /\ e.res.ok => good /\ Has(e.res.lat, Values(la)) /\ Has(e.res.lon, Values(lo))
     /\ (good /\ e.must /\ b.tail = "" => e.res.ok)
\* fuzz: any text; if it is taken for a coordinate, it is c: the numbers, sign and letter that the text consists of
FuzzOk(e) == e.res.ok => e.known /\ Real(e.c) /\ Has(e.res, Values(e.c))
COk(e) == CASE e.op = "one" -> OneOk(e) [] e.op = "two" -> TwoOk(e) [] e.op = "fuzz" -> FuzzOk(e)
CWant(e) == CASE e.op = "one" -> <<Real(e.c), Values(e.c)>> [] e.op = "two" -> <<Values(e.a), Values(e.b)>> [] e.op = "fuzz" -> <<e.known, Real(e.c), Values(e.c)>>
=============================================================================
