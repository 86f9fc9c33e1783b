--------------------------------- MODULE Utf8 ---------------------------------
(* UTF-8 as ExifTool understands it (RFC 3629, without the two noncharacters     *)
(* U+FFFE and U+FFFF), and the repair of text that is not: NULs are dropped and  *)
(* each byte that does not belong to a character becomes U+FFFD.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Rep == 65533
Cont(b) == b \in 128..191
\* the number of bytes of the character that begins at s[i], or 0 if there is none
CharLen(s, i) ==
  LET c == s[i]  has(k) == i + k <= Len(s) /\ \A j \in 1..k : Cont(s[i + j]) IN
  CASE c < 128 -> 1
    [] c \in 194..223 -> IF has(1) THEN 2 ELSE 0
    [] c \in 224..239 -> IF /\ has(2)
                            /\ ~(c = 224 /\ s[i+1] < 160)                                 \* overlong
                            /\ ~(c = 237 /\ s[i+1] > 159)                                 \* surrogate
                            /\ ~(c = 239 /\ s[i+1] = 191 /\ s[i+2] \in {190, 191})        \* noncharacter
                         THEN 3 ELSE 0
    [] c \in 240..244 -> IF has(3) /\ ~(c = 240 /\ s[i+1] < 144) /\ ~(c = 244 /\ s[i+1] > 143) THEN 4 ELSE 0
    [] OTHER -> 0
Code(s, i, n) ==
  CASE n = 1 -> s[i]
    [] n = 2 -> (s[i] - 192) * 64 + (s[i+1] - 128)
    [] n = 3 -> (s[i] - 224) * 4096 + (s[i+1] - 128) * 64 + (s[i+2] - 128)
    [] n = 4 -> (s[i] - 240) * 262144 + (s[i+1] - 128) * 4096 + (s[i+2] - 128) * 64 + (s[i+3] - 128)

\* st: characters read so far, next position, bytes that are no characters
ScanWith(s, r) ==
  FoldLeft(LAMBDA st, i :
      IF i < st.next THEN st
      ELSE LET n == CharLen(s, i) IN
           IF n = 0 THEN [out |-> Append(st.out, r), next |-> i + 1, bad |-> st.bad + 1]
           ELSE [out |-> Append(st.out, Code(s, i, n)), next |-> i + n, bad |-> st.bad],
    [out |-> <<>>, next |-> 1, bad |-> 0], [i \in 1..Len(s) |-> i])

Scan(s) == ScanWith(s, Rep)
Wellformed(s) == Scan(s).bad = 0
NoNul(s) == SelectSeq(s, LAMBDA b : b # 0)
Reported(s) == Scan(NoNul(s)).out          \* code points

Enc(c) == CASE c < 128 -> <<c>>
            [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
            [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
            [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
EncAll(cs) == FlattenSeq([i \in 1..Len(cs) |-> Enc(cs[i])])

(* One text of the metadata: raw are its bytes; got is what the read reported     *)
(* (code points), recorded tells whether there is a byte record for exactly its   *)
(* place, and rec is that record.  With a filter of the caller's own there is no   *)
(* repair, and no record: ExifTool itself then shows a "?" for each bad byte.      *)
TextOk(e, custom) ==
  IF custom THEN ~e.recorded /\ e.got = ScanWith(NoNul(e.raw), 63).out
  ELSE /\ e.got = Reported(e.raw)
       /\ e.recorded = ~Wellformed(e.raw)
       /\ e.recorded => e.rec = e.raw
=============================================================================
