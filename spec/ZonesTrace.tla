------------------------------ MODULE ZonesTrace ------------------------------
EXTENDS Zones, TraceLib
Is(r, sec) == r.ok /\ r.name = NameOf(sec) /\ r.sec = sec
\* spell: what the zone functions make of one spelling; again: of the name that came out;
\* ext: of the spelling alone, emb: of the spelling behind a timestamp
SpellOk(e) == /\ e.text = SpText(e.sp)
              /\ IF SpDenotes(e.st, e.sp)
                 THEN LET s == SpSec(e.sp) IN Is(e.res, s) /\ Is(e.again, s) /\ Is(e.ext, s) /\ e.short = ShortOf(s)
                        /\ (e.hasEmb => Is(e.emb, s) /\ e.left)
                        /\ e.equiv
                 ELSE ~e.res.ok /\ ~e.ext.ok /\ ~e.emb.ok /\ e.short = ""
\* num: a number of minutes; hour: the same as hours, for extractZone
NumOk(e) == IF e.sec \in Valid(e.st)
            THEN Is(e.res, e.sec) /\ Is(e.again, e.sec) /\ e.valid /\ e.name = NameOf(e.sec) /\ (e.hasHour => Is(e.hour, e.sec))
            ELSE ~e.res.ok /\ ~e.valid /\ e.name = "" /\ ~e.hour.ok
\* iana: a name; known: whether the platform's zone database has it; sec: its offset at a time
IanaOk(e) == IF e.known THEN e.res.ok /\ e.res.name = e.text /\ e.again.name = e.text /\ e.res.sec = e.sec /\ (e.sec % 60 = 0 => e.short = ShortOf(e.sec))
             ELSE ~e.res.ok /\ e.short = ""
\* words: text that is no zone at all, whatever letters and digits it contains
WordOk(e) == ~e.res.ok /\ ~e.ext.ok
\* utc: a spelling of UTC
UtcOk(e) == Is(e.res, 0) /\ Is(e.again, 0) /\ Is(e.ext, 0)
\* equiv: two zones with their offsets at a time (ok: is a zone under the settings)
EquivOk(e) == e.res = (e.a.ok /\ e.b.ok /\ e.a.sec = e.b.sec)
\* infer: near is the offset inferred from a difference of d seconds
InfOk(e) == InferOk([e.st EXCEPT !.tol = e.tol], e.d, e.near)
\* abbr: a timestamp followed by an abbreviation (off: and, before it, an offset)
AbOk(e) == IF e.hasOff THEN IF e.off \in Valid(e.st) THEN Is(e.ext, e.off) /\ e.left ELSE TRUE
           ELSE IF AbbrDenotes(e.st, e.k) THEN Is(e.ext, AbbrSec(e.st, e.k).sec) /\ e.left ELSE ~e.ext.ok
ZOk(e) == CASE e.op = "spell" -> SpellOk(e) [] e.op = "num" -> NumOk(e) [] e.op = "iana" -> IanaOk(e) [] e.op = "word" -> WordOk(e)
            [] e.op = "utc" -> UtcOk(e) [] e.op = "equiv" -> EquivOk(e) [] e.op = "infer" -> InfOk(e) [] e.op = "abbr" -> AbOk(e)
ZWant(e) == CASE e.op = "spell" -> <<SpDenotes(e.st, e.sp), NameOf(SpSec(e.sp))>>
              [] e.op = "abbr" -> AbbrSec(e.st, e.k)
              [] OTHER -> ""
=============================================================================
