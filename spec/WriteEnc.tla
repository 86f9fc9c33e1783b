------------------------------- MODULE WriteEnc -------------------------------
(* Values and their transmitted text (property P06).                            *)
(*                                                                              *)
(* ExifTool decodes the text after "=" of a "-TAG=TEXT" argument: it drops one   *)
(* leading space, decodes character entities, splits list tags at the list       *)
(* separator U+001F, and inflates the serialization of structures, decoding      *)
(* entities of every field once more.  This module models that decoder (from     *)
(* FilterArgfileLine, UnescapeXML, SetNewValue and InflateStruct of ExifTool) on  *)
(* sequences of code points, and the value every written value denotes.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* ---- values --------------------------------------------------------------------
\* [k |-> "s", t]: text;  [k |-> "l", xs]: list;  [k |-> "m", ks, xs]: structure;
\* [k |-> "x"]: what the decoder yields for text it cannot parse
S(t) == [k |-> "s", t |-> t]
L(xs) == [k |-> "l", xs |-> xs]
M(ks, xs) == [k |-> "m", ks |-> ks, xs |-> xs]
Bad == [k |-> "x"]

\* ---- character entities ------------------------------------------------------------
Amp == 38  Semi == 59  Hash == 35  US == 31  SP == 32
Digit(c) == c >= 48 /\ c <= 57
HexV(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
RECURSIVE DecVal(_, _)
DecVal(s, acc) == IF s = <<>> THEN acc ELSE IF ~Digit(Head(s)) \/ acc > 1200000 THEN -1 ELSE DecVal(Tail(s), acc * 10 + Head(s) - 48)
RECURSIVE HexVal(_, _)
HexVal(s, acc) == IF s = <<>> THEN acc ELSE IF HexV(Head(s)) < 0 \/ acc > 1200000 THEN -1 ELSE HexVal(Tail(s), acc * 16 + HexV(Head(s)))
Named == << <<<<97,109,112>>, 38>>, <<<<108,116>>, 60>>, <<<<103,116>>, 62>>, <<<<113,117,111,116>>, 34>>, <<<<110,98,115,112>>, 160>>, <<<<101,97,99,117,116,101>>, 233>> >>
NamedVal(s) == IF \E i \in 1..Len(Named) : Named[i][1] = s THEN Named[CHOOSE i \in 1..Len(Named) : Named[i][1] = s][2] ELSE -1
EntityVal(s) == IF s = <<>> THEN -1
                ELSE IF Head(s) # Hash THEN NamedVal(s)
                ELSE IF Len(s) < 2 THEN -1
                ELSE IF s[2] \in {120, 88} /\ Len(s) > 2 THEN HexVal(SubSeq(s, 3, Len(s)), 0)
                ELSE DecVal(Tail(s), 0)
\* position of the next semicolon within 9 characters, or 0
SemiAt(s, i) == LET C == {j \in (i + 1)..(IF Len(s) < i + 9 THEN Len(s) ELSE i + 9) : s[j] = Semi} IN
                IF C = {} THEN 0 ELSE CHOOSE j \in C : \A m \in C : j <= m
RECURSIVE UnescFrom(_, _)
UnescFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] # Amp THEN <<s[i]>> \o UnescFrom(s, i + 1)
  ELSE LET j == SemiAt(s, i) v == IF j = 0 THEN -1 ELSE EntityVal(SubSeq(s, i + 1, j - 1)) IN
       IF v < 0 THEN <<Amp>> \o UnescFrom(s, i + 1) ELSE <<v>> \o UnescFrom(s, j + 1)
Unesc(s) == UnescFrom(s, 1)

\* ---- lists -----------------------------------------------------------------------------
RECURSIVE SplitAt(_, _, _)
SplitAt(s, sep, cur) == IF s = <<>> THEN <<cur>>
                        ELSE IF Head(s) = sep THEN <<cur>> \o SplitAt(Tail(s), sep, <<>>)
                        ELSE SplitAt(Tail(s), sep, Append(cur, Head(s)))

\* ---- structures --------------------------------------------------------------------------
White == {9, 10, 11, 12, 13, 32}
WordCh(c) == Digit(c) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c \in {45, 46, 58, 95}
RECURSIVE Lead(_, _)
Lead(s, i) == IF i <= Len(s) /\ s[i] \in White THEN Lead(s, i + 1) ELSE i
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ WordCh(s[i]) THEN WordEnd(s, i + 1) ELSE i
OB == 123  CB == 125  OS == 91  CS == 93  Comma == 44  Bar == 124  Eq == 61
\* parsers return [v, p]: value and next position
RECURSIVE Scalar(_, _, _, _)
Scalar(s, i, delim, acc) ==
  IF i > Len(s) \/ s[i] = delim \/ s[i] = Comma THEN [v |-> S(Unesc(acc)), p |-> i]
  ELSE IF s[i] = Bar THEN (IF i = Len(s) THEN [v |-> S(Unesc(acc)), p |-> i + 1] ELSE Scalar(s, i + 2, delim, Append(acc, s[i + 1])))
  ELSE Scalar(s, i + 1, delim, Append(acc, s[i]))
RECURSIVE Inflate(_, _, _)
RECURSIVE Items(_, _, _)
RECURSIVE Pairs(_, _, _, _)
Items(s, i, acc) ==
  LET r == Inflate(s, i, CS) n == Lead(s, r.p) IN
  IF r.v = Bad THEN [v |-> Bad, p |-> r.p]
  ELSE IF n <= Len(s) /\ s[n] = Comma THEN Items(s, n + 1, Append(acc, r.v))
  ELSE IF n <= Len(s) /\ s[n] = CS THEN [v |-> L(Append(acc, r.v)), p |-> n + 1]
  ELSE [v |-> Bad, p |-> n]
Pairs(s, i, ks, xs) ==
  LET a == Lead(s, i) b == WordEnd(s, a) c == IF b <= Len(s) /\ s[b] = Hash THEN b + 1 ELSE b d == Lead(s, c) IN
  IF b = a \/ d > Len(s) \/ s[d] # Eq
  THEN LET n == Lead(s, i) IN
       IF n <= Len(s) /\ s[n] = CB /\ ks = <<>> THEN [v |-> M(ks, xs), p |-> n + 1] ELSE [v |-> Bad, p |-> n]
  ELSE LET r == Inflate(s, d + 1, CB) n == Lead(s, r.p) IN
       IF r.v = Bad THEN [v |-> Bad, p |-> r.p]
       ELSE IF n <= Len(s) /\ s[n] = Comma THEN Pairs(s, n + 1, Append(ks, SubSeq(s, a, c - 1)), Append(xs, r.v))
       ELSE IF n <= Len(s) /\ s[n] = CB THEN [v |-> M(Append(ks, SubSeq(s, a, c - 1)), Append(xs, r.v)), p |-> n + 1]
       ELSE [v |-> Bad, p |-> n]
Inflate(s, i, delim) ==
  LET a == Lead(s, i) IN
  IF a <= Len(s) /\ s[a] = OB THEN Pairs(s, a + 1, <<>>, <<>>)
  ELSE IF a <= Len(s) /\ s[a] = OS THEN Items(s, a + 1, <<>>)
  ELSE Scalar(s, a, delim, <<>>)

\* ---- the decoder ---------------------------------------------------------------------------
\* type: "scalar", "list" or "struct" (a tag that holds structures or lists of them)
Decode(type, text) ==
  LET arg == IF text # <<>> /\ Head(text) = SP THEN Tail(text) ELSE text
      d == Unesc(arg)
  IN IF arg = <<>> THEN [k |-> "clear"]
     ELSE CASE type = "scalar" -> S(d)
            [] type = "list"   -> LET p == SplitAt(d, US, <<>>) IN L([i \in 1..Len(p) |-> S(p[i])])
            [] type = "struct" -> LET r == Inflate(d, 1, 0) IN IF r.v = Bad \/ r.p <= Len(d) THEN Bad ELSE r.v

\* ---- what a written value denotes -------------------------------------------------------------
\* Caller values: "s" text, "n"/"d" number/date (given by its text), "b" boolean, "l", "m", "null".
\* Entities in the caller's text are decoded by write (documented), as often as ExifTool does.
T4 == <<84, 114, 117, 101>>  F5 == <<70, 97, 108, 115, 101>>
RECURSIVE Denotes(_, _)
Denotes(v, n) ==
  CASE v.k = "s" -> S(IF n = 2 THEN Unesc(Unesc(v.t)) ELSE IF n = 1 THEN Unesc(v.t) ELSE v.t)
    [] v.k \in {"n", "d"} -> S(v.t)
    [] v.k = "b" -> S(IF v.v THEN T4 ELSE F5)
    [] v.k = "l" -> L([i \in 1..Len(v.xs) |-> Denotes(v.xs[i], n)])
    [] v.k = "m" -> M(v.ks, [i \in 1..Len(v.xs) |-> Denotes(v.xs[i], n)])
Expected(type, v) ==
  IF v.k = "null" \/ (v.k = "s" /\ v.t = <<>>) \/ (v.k = "l" /\ v.xs = <<>>) THEN [k |-> "clear"]
  ELSE IF v.k = "l" /\ type = "list" /\ v.xs[1].k = "s" /\ Len(v.xs) = 1 /\ v.xs[1].t = <<>> THEN [k |-> "clear"]
  ELSE CASE type = "scalar" -> Denotes(v, 1)
         [] type = "list"   -> IF v.k = "l" THEN Denotes(v, 1) ELSE L(<<Denotes(v, 1)>>)
         [] type = "struct" -> Denotes(v, 2)

\* Values that cannot be transmitted and must be refused.
KeyOk(key) == key # <<>> /\ LET n == IF key[Len(key)] = Hash THEN Len(key) - 1 ELSE Len(key) IN n >= 1 /\ \A i \in 1..n : WordCh(key[i])
RECURSIVE Encodable(_)
Encodable(v) == CASE v.k = "s" -> \A i \in 1..Len(v.t) : v.t[i] # 0
                  [] v.k = "l" -> \A i \in 1..Len(v.xs) : Encodable(v.xs[i])
                  [] v.k = "m" -> \A i \in 1..Len(v.xs) : KeyOk(v.ks[i]) /\ Encodable(v.xs[i])
                  [] OTHER -> TRUE
\* a list item that ExifTool would split
Splittable(type, v) == type = "list" /\ v.k = "l" /\ \E i \in 1..Len(v.xs) : v.xs[i].k = "s" /\ \E j \in 1..Len(v.xs[i].t) : v.xs[i].t[j] = US
MustRefuse(type, v) == ~Encodable(v) \/ Splittable(type, v)

\* ---- a reference encoder, for the model check -----------------------------------------------
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Ent(c) == <<Amp, Hash>> \o Digits(c) \o <<Semi>>
Hidden(c) == c > 126 \/ c < 32
HtmlEnc(t) == FlattenSeq([i \in 1..Len(t) |-> IF Hidden(t[i]) THEN Ent(t[i]) ELSE <<t[i]>>])
StructEsc(t) == (IF t # <<>> /\ Head(t) \in White THEN <<Bar>> ELSE <<>>)
                \o FlattenSeq([i \in 1..Len(t) |-> IF t[i] \in {Comma, OS, CS, OB, CB, Bar} THEN <<Bar, t[i]>> ELSE <<t[i]>>])
Join(xs, sep) == IF xs = <<>> THEN <<>> ELSE FoldLeft(LAMBDA acc, x : acc \o sep \o x, Head(xs), Tail(xs))
RECURSIVE EncS(_)
EncS(v) == CASE v.k = "s" -> HtmlEnc(StructEsc(v.t))
             [] v.k = "l" -> <<OS>> \o Join([i \in 1..Len(v.xs) |-> EncS(v.xs[i])], <<Comma>>) \o <<CS>>
             [] v.k = "m" -> <<OB>> \o Join([i \in 1..Len(v.xs) |-> v.ks[i] \o <<Eq>> \o EncS(v.xs[i])], <<Comma>>) \o <<CB>>
Top(t) == IF t # <<>> /\ Head(t) = SP THEN Ent(SP) \o HtmlEnc(Tail(t)) ELSE HtmlEnc(t)
Encode(type, v) == CASE v.k = "null" -> <<>>
                     [] v.k = "s" -> Top(v.t)
                     [] v.k = "l" /\ type = "list" -> Join([i \in 1..Len(v.xs) |-> Top(v.xs[i].t)], <<US>>)
                     [] OTHER -> EncS(v)
=============================================================================
