----------------------------- MODULE MC_Outcome -----------------------------
EXTENDS Outcome, Json, IOUtils
\* Exhaustive check of the model, and export of its responses for replay.
OutSeqs == {<<>>} \cup {<<OutLine(k, n)>> : k \in OutKinds, n \in {0, 1, 2, 11, 12, 101, 123456}}
           \cup {<<OutLine(k, 1), OutLine(j, n)>> : k \in OutKinds, j \in OutKinds, n \in {1, 3}}
ErrSeqs == {<<>>} \cup {<<ErrLine(k, n)>> : k \in ErrKinds, n \in {0, 1, 2, 3}}
           \cup {<<ErrLine(k, 1), ErrLine(j, 2)>> : k \in ErrKinds, j \in ErrKinds}
           \cup {<<ErrLine(k, 1), ErrLine(k, 1)>> : k \in ErrKinds}
Main == {<<>>, <<OutLine("updated", 1)>>, <<OutLine("created", 1)>>, <<OutLine("unchanged", 1)>>}
Gen == [so : OutSeqs, se : {<<>>, <<ErrLine("warn", 1)>>, <<ErrLine("error", 1)>>}]
       \cup [so : Main, se : ErrSeqs]
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Gen))
=============================================================================
