----------------------------- MODULE MC_WriteEnc -----------------------------
EXTENDS WriteEnc, Json, IOUtils
CONSTANTS Alphabet, MaxLen
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Short == UNION {[1..n -> Alphabet] : n \in 0..1}
NA == <<65>>  NB == <<66>>
Cases ==
  [type : {"scalar"}, v : {S(t) : t \in Texts}]
  \cup [type : {"list"}, v : {L(<<S(t), S(u)>>) : t \in Texts, u \in Short} \cup {L(<<S(t)>>) : t \in Texts \ {<<>>}}]
  \cup [type : {"struct"}, v : {M(<<NA, NB>>, <<S(t), S(u)>>) : t \in Texts, u \in Short}
                                \cup {L(<<M(<<NA>>, <<S(t)>>), M(<<NB>>, <<S(u)>>)>>) : t \in Texts, u \in Short}
                                \cup {M(<<NA, NB>>, <<L(<<S(t), S(u)>>), S(t)>>) : t \in Texts, u \in Short}
                                \cup {M(<<NA>>, <<M(<<NB>>, <<S(t)>>)>>) : t \in Texts}]
VARIABLES c, sent
Init == c \in Cases /\ sent = <<>>
Next == sent = <<>> /\ sent' = <<Encode(c.type, c.v)>> /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, sent>>
\* what arrives is what was meant, and no value is ever unparsable
RoundTrip == sent # <<>> /\ ~MustRefuse(c.type, c.v) => Decode(c.type, sent[1]) = Expected(c.type, c.v)
OneLine == sent # <<>> => \A i \in 1..Len(sent[1]) : sent[1][i] \notin {0, 10, 13}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Cases))
=============================================================================
