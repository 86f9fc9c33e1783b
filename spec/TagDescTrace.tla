----------------------------- MODULE TagDescTrace -----------------------------
(* history: several lookup objects over one cache directory.  s.objs[i] is object i. *)
EXTENDS TagDesc, TraceLib
Pick(S) == CHOOSE x \in S : TRUE
ListingOf(p) == [k \in {<<p[i][1], p[i][2], p[i][3]>> : i \in 1..Len(p)} |-> Pick({p[i] : i \in {j \in 1..Len(p) : <<p[j][1], p[j][2], p[j][3]>> = k}})[4]]
MapOf(p) == [k \in {p[i][1] : i \in 1..Len(p)} |-> Pick({p[i] : i \in {j \in 1..Len(p) : p[j][1] = k}})[2]]
SetOf(p) == {p[i] : i \in 1..Len(p)}

T0(e) == [v |-> e.v, health |-> "ok", objs |-> [i \in 1..Len(e.langs) |-> New], ok |-> TRUE]
Fail(s) == [s EXCEPT !.ok = FALSE]
\* a call that needs the descriptions, and whose answer good(ver) judges
Needs(s, ev, good(_)) ==
  LET rs == {r \in Loads(s.objs[ev.i], s.v, s.health) : r.st = ev.st /\ (ev.st = "ok" => good(r.o.ver))} IN
  IF rs = {} THEN Fail(s) ELSE [s EXCEPT !.objs[ev.i] = Pick(rs).o]
Step(e, L, C, s, ev) ==
  CASE ev.op = "tool"  -> [s EXCEPT !.v = ev.v, !.health = ev.health]
    [] ev.op = "disk"  -> s
    [] ev.op = "clear" -> [s EXCEPT !.objs[ev.i] = New]
    [] ev.op = "async" -> IF IsCurated(C, e.langs[ev.i], ev.name)
                          THEN IF ev.st = "ok" /\ ev.out = C[ev.name] THEN [s EXCEPT !.objs[ev.i].fresh = FALSE] ELSE Fail(s)
                          ELSE Needs(s, ev, LAMBDA ver : ev.out = Right(L, C, ver, e.langs[ev.i], ev.name))
    [] ev.op = "preload" -> Needs(s, ev, LAMBDA ver : TRUE)
    [] ev.op = "all"   -> Needs(s, ev, LAMBDA ver : AllRight(L, C, ver, e.langs[ev.i], SetOf(e.names), MapOf(ev.map)))
    [] ev.op = "get"   -> LET o == s.objs[ev.i]  want == Right(L, C, o.ver, e.langs[ev.i], ev.name) IN
                          IF o.ver # "" \/ IsCurated(C, e.langs[ev.i], ev.name) THEN (IF ev.out = want THEN s ELSE Fail(s))
                          ELSE IF o.fresh /\ ev.out # "" THEN Fail(s) ELSE s
    [] ev.op = "loaded" -> LET o == s.objs[ev.i] IN
                          IF (o.ver # "" => ev.loaded /\ ev.size >= Cardinality({x \in SetOf(e.names) : Right(L, C, o.ver, e.langs[ev.i], x) # ""})) /\ (o.fresh => ~ev.loaded /\ ev.size = 0) THEN s ELSE Fail(s)
RunT(e) == LET L == ListingOf(e.listing) C == MapOf(e.curated) IN FoldLeft(LAMBDA s, ev : IF s.ok THEN Step(e, L, C, s, ev) ELSE s, T0(e), e.h)
\* real: every description of the vendored ExifTool, one name per event
DOk(e) == CASE e.op = "history" -> RunT(e).ok
            [] e.op = "real" -> IF e.curated # "" THEN e.out = e.curated ELSE IF e.descs = <<>> THEN e.out = "" ELSE e.out \in SetOf(e.descs)
            [] e.op = "same" -> e.same
DWant(e) == CASE e.op = "history" -> RunT(e) [] e.op = "real" -> e.descs [] OTHER -> "the same"
=============================================================================
