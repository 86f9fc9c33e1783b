------------------------------- MODULE MC_Wire -------------------------------
(* The argument channel: calls render arguments into one stream, ExifTool's    *)
(* argument reader splits it again.  Exhaustively, over small argument lists:   *)
(* if only safe argument lists are rendered, the commands ExifTool runs are     *)
(* exactly the accepted calls, in order, with exactly their arguments.          *)
EXTENDS Wire, Json, IOUtils
CONSTANTS Alphabet, MaxLen, MaxArgs, MaxCalls

Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}      \* a text is a sequence of characters here
IsBlank(t) == \A i \in 1..Len(t) : t[i] = " "
Safe(t) == \A i \in 1..Len(t) : t[i] # "\n"
ArgLists == UNION {[1..n -> Texts] : n \in 0..MaxArgs}

VARIABLES calls, stream, line, cur, ran
cvars == <<calls, stream, line, cur, ran>>

X == <<"-", "x">>                \* stands for the execute line
Rendered(args) == FoldSeq(LAMBDA a, acc : acc \o a \o <<"\n">>, <<>>, SelectSeq(args, LAMBDA a : ~IsBlank(a))) \o X \o <<"\n">>
\* caller text always follows a fixed prefix (an absolute path, "-Tag=", ...) so it never is X
Prefixed(args) == [i \in 1..Len(args) |-> <<"/">> \o args[i]]
CInit == calls = <<>> /\ stream = <<>> /\ line = <<>> /\ cur = <<>> /\ ran = <<>>
Send(args) == /\ Len(calls) < MaxCalls
              /\ IF \A i \in 1..Len(args) : Safe(args[i])
                 THEN calls' = Append(calls, Prefixed(args)) /\ stream' = stream \o Rendered(Prefixed(args))
                 ELSE UNCHANGED <<calls, stream>>          \* refused: nothing is transmitted
              /\ UNCHANGED <<line, cur, ran>>
Consume == /\ stream # <<>>
           /\ stream' = Tail(stream)
           /\ LET c == Head(stream) IN
              IF c # "\n" THEN line' = Append(line, c) /\ UNCHANGED <<cur, ran>>
              ELSE /\ line' = <<>>
                   /\ IF line = X THEN ran' = Append(ran, cur) /\ cur' = <<>>
                      ELSE IF IsBlank(line) THEN UNCHANGED <<cur, ran>>
                      ELSE cur' = Append(cur, line) /\ ran' = ran
           /\ UNCHANGED calls
CNext == Consume \/ (stream = <<>> /\ \E args \in ArgLists : Send(args))
CSpec == CInit /\ [][CNext]_cvars
OnlyAccepted == IsPrefix(ran, calls)
AllRun == stream = <<>> => ran = calls /\ cur = <<>> /\ line = <<>>

\* hostile texts for the conformance run
HAlpha == <<"a", "-", "\\u000a", "\\u000d", "\\u0000", " ", "#", "=", "<", ":", "\\u00e9", ".", "/", "%", "f", "{", "\\u2028", "+">>
H1 == {HAlpha[i] : i \in 1..Len(HAlpha)}
H2 == {x \o y : x \in H1, y \in H1}
Payloads == {"a\\u000a-execute", "a\\u000d\\u000a-all=", "-execute", "-execute1", "-o", "-stay_open", "a\\u000a\\u000a", "\\u000a-delete_original!",
             "x -execute", "execute", "EXECUTE7", "executed", "stay_open", "Stay_Open", "stay_openx", "a=b", "a<b", "@", "../x", "./-x", "-", "--", "#[CSTR]a", "# c",
             "%d", "100%done", "%-c", "%.3e", "%20", "%%f", "%3:lf", "Orientation#", "History+", "Title^", "XMP-dc:Title", "EXIF:all", "*", "?mm", "0", "a b", "a\\u0009b", "{ready}", "\\u001f"}
Gen == H1 \cup H2 \cup Payloads \cup {""}
ASSUME ndJsonSerialize(IOEnv.GEN, [i \in 1..Cardinality(Gen) |-> [t |-> SetToSeq(Gen)[i]]])
=============================================================================
