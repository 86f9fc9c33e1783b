------------------------------- MODULE Utf8Trace -------------------------------
(* texts: the texts of one file, each with its place; extra: the places that have  *)
(* a byte record but are none of them                                              *)
EXTENDS Utf8, TraceLib
UOk(e) == CASE e.op = "texts" -> e.extra = <<>> /\ e.shape /\ \A i \in 1..Len(e.texts) : TextOk(e.texts[i], e.custom)
            [] e.op = "alike" -> e.same /\ e.extra = <<>>
            [] e.op = "json"  -> e.same
UWant(e) == IF e.op # "texts" THEN "unchanged" ELSE
   [extra |-> e.extra, bad |-> {<<e.texts[i].at, Reported(e.texts[i].raw)>> : i \in {j \in 1..Len(e.texts) : ~TextOk(e.texts[j], e.custom)}}]
=============================================================================
