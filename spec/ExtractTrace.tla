----------------------------- MODULE ExtractTrace -----------------------------
EXTENDS Extract, TraceLib
Pairs(p) == [x \in {p[i][1] : i \in 1..Len(p)} |-> (CHOOSE q \in {p[i] : i \in 1..Len(p)} : q[1] = x)[2]]
EmbOf(p) == [x \in {p[i][1] : i \in 1..Len(p)} |-> Pairs((CHOOSE q \in {p[i] : i \in 1..Len(p)} : q[1] = x)[2])]
SetOf(s) == {s[i] : i \in 1..Len(s)}
XOk(e) == CASE e.op = "history" -> XRun(Pairs(e.fs), EmbOf(e.emb), SetOf(e.blocked), e.h).ok
            [] e.op = "answer"  -> (e.st = "ok") = AnswerOk(e.so, e.se, TRUE)
            [] e.op = "json"    -> IF e.want = "" THEN e.st = "err" ELSE e.st = "ok" /\ e.got = e.want
XWant(e) == CASE e.op = "history" -> XRun(Pairs(e.fs), EmbOf(e.emb), SetOf(e.blocked), e.h)
              [] e.op = "answer"  -> AnswerOk(e.so, e.se, TRUE)
              [] OTHER -> e.want
=============================================================================
