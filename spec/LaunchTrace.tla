----------------------------- MODULE LaunchTrace ------------------------------
EXTENDS Launch, TraceLib
LPairs(p) == [x \in {p[i][1] : i \in 1..Len(p)} |-> (CHOOSE q \in {p[i] : i \in 1..Len(p)} : q[1] = x)[2]]
Conf(c) == [c EXCEPT !.env = LPairs(c.env)]
Rec(r) == [r EXCEPT !.children = [i \in 1..Len(r.children) |-> [r.children[i] EXCEPT !.env = LPairs(r.children[i].env)]]]
LOk(e) == InstanceOk(Conf(e.cfg), Rec(e))
LWant(e) == [child |-> Child(Conf(e.cfg)), history |-> RunH(e.h, e.max)]
=============================================================================
