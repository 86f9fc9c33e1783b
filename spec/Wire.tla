-------------------------------- MODULE Wire --------------------------------
(* What a call transmits to ExifTool (properties P05 and P20).                 *)
(*                                                                             *)
(* ExifTool runs with "-stay_open True -@ -": it reads one argument per line   *)
(* from its standard input and runs the command at each "-execute" line.  The  *)
(* specification gives, for every public call, the arguments it intends, as a  *)
(* set of threads: sequences of units (a unit is a sequence of consecutive     *)
(* lines) whose order matters within a thread and not between threads.         *)
(* Caller supplied text is unsafe when it would end a line; such a call must   *)
(* transmit nothing.                                                           *)
(*                                                                             *)
(* Text is given in printable ASCII: every other character and the backslash   *)
(* itself is written \uXXXX, so "\u000a" is a line feed.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, EditRules

\* ---- text -----------------------------------------------------------------------
Ch(s, i) == SubSeq(s, i, i)
Esc(s, i) == IF i + 5 <= Len(s) THEN SubSeq(s, i, i + 5) ELSE ""
HasControl(s) == \E i \in 1..(Len(s) - 5) : Esc(s, i) \in {"\\u000a", "\\u000d", "\\u0000"}
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* JavaScript white space that an argument may consist of
Whites == {"\\u0009", "\\u000a", "\\u000b", "\\u000c", "\\u000d", "\\u00a0", "\\u1680",
           "\\u2000", "\\u2001", "\\u2002", "\\u2003", "\\u2004", "\\u2005", "\\u2006", "\\u2007",
           "\\u2008", "\\u2009", "\\u200a", "\\u2028", "\\u2029", "\\u202f", "\\u205f", "\\u3000", "\\ufeff"}
RECURSIVE Blank(_)
Blank(s) == IF s = "" THEN TRUE
            ELSE IF Ch(s, 1) = " " THEN Blank(SubSeq(s, 2, Len(s)))
            ELSE Esc(s, 1) \in Whites /\ Blank(SubSeq(s, 7, Len(s)))

Lower == [c \in {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"} |->
  CASE c="A"->"a" [] c="B"->"b" [] c="C"->"c" [] c="D"->"d" [] c="E"->"e" [] c="F"->"f" [] c="G"->"g" [] c="H"->"h" [] c="I"->"i" [] c="J"->"j" [] c="K"->"k" [] c="L"->"l" [] c="M"->"m" [] c="N"->"n" [] c="O"->"o" [] c="P"->"p" [] c="Q"->"q" [] c="R"->"r" [] c="S"->"s" [] c="T"->"t" [] c="U"->"u" [] c="V"->"v" [] c="W"->"w" [] c="X"->"x" [] c="Y"->"y" [] OTHER->"z"]
LowerCh(c) == IF c \in DOMAIN Lower THEN Lower[c] ELSE c
RECURSIVE LowerS(_)
LowerS(s) == IF s = "" THEN "" ELSE LowerCh(Ch(s, 1)) \o LowerS(SubSeq(s, 2, Len(s)))

Digits == {"0","1","2","3","4","5","6","7","8","9"}
Letters == DOMAIN Lower \cup {Lower[c] : c \in DOMAIN Lower}
NameFirst == Letters \cup Digits \cup {"_", ":", "*", "?", "+", "#", "^"}
NameRest == NameFirst \cup {"-"}
AllDigits(s) == \A i \in 1..Len(s) : Ch(s, i) \in Digits
\* names that would delimit commands
Reserved(s) == LET l == LowerS(s) IN l = "stay_open" \/ (StartsWith(l, "execute") /\ AllDigits(SubSeq(l, 8, Len(l))))
ValidName(s) == /\ s # ""
                /\ Ch(s, 1) \in NameFirst
                /\ \A i \in 1..Len(s) : Ch(s, i) \in NameRest
                /\ ~Reserved(s)
\* ExifTool expands these in an output path
RECURSIVE SkipIn(_, _, _)
SkipIn(s, i, S) == IF i <= Len(s) /\ Ch(s, i) \in S THEN SkipIn(s, i + 1, S) ELSE i
Skip1(s, i, S) == IF i <= Len(s) /\ Ch(s, i) \in S THEN i + 1 ELSE i
FormatCodeAt(s, i) ==
  /\ Ch(s, i) = "%"
  /\ LET a == Skip1(s, i + 1, {"-", "+"})
         b == SkipIn(s, a, Digits)
         c == Skip1(s, b, {".", ":"})
         d == SkipIn(s, c, Digits)
         e == Skip1(s, d, {"l", "u", "n"})
     IN e <= Len(s) /\ Ch(s, e) \in {"d","D","f","F","e","E","t","g","s","o","c","C"}
HasFormatCode(s) == \E i \in 1..Len(s) : FormatCodeAt(s, i)
SafeOut(s) == ~HasControl(s) /\ ~HasFormatCode(s)

\* ---- effective options (P20) -------------------------------------------------------
\* Levels are records of strings ("\-" = not given) and of [set, v] for lists.
Defaults == [useMWG |-> "T", struct |-> "1", minor |-> "T", geolocation |-> "F", keepUTCTime |-> "T",
             hash |-> "false", md5 |-> "\\-", force |-> "F",
             readArgs |-> [set |-> TRUE, v |-> <<"-fast">>],
             writeArgs |-> [set |-> TRUE, v |-> <<>>],
             numericTags |-> [set |-> TRUE, v |-> <<"*Duration*", "GPSAltitude", "GPSLatitude", "GPSLongitude",
                                                    "GPSPosition", "GeolocationPosition", "Orientation">>]]
Opt(e, n) == IF e.call[n] # "\\-" THEN e.call[n] ELSE IF e.inst[n] # "\\-" THEN e.inst[n] ELSE Defaults[n]
OptL(e, n) == IF e.call[n].set THEN e.call[n].v ELSE IF e.inst[n].set THEN e.inst[n].v ELSE Defaults[n].v
On(e, n) == Opt(e, n) = "T"
\* the deprecated includeImageDataMD5 stands for imageHashType at its own level
HashAt(o) == IF o.hash # "\\-" THEN o.hash ELSE IF o.md5 = "T" THEN "MD5" ELSE IF o.md5 = "F" THEN "false" ELSE "\\-"
Hash(e) == IF HashAt(e.call) # "\\-" THEN HashAt(e.call) ELSE IF HashAt(e.inst) # "\\-" THEN HashAt(e.inst) ELSE "false"
HashNames == {"MD5", "SHA256", "SHA512"}

\* ---- intended commands --------------------------------------------------------------
\* A unit is a sequence of lines; a line "\p<prefix>" stands for any line with that prefix.
One(s) == <<s>>
Thread(args) == [i \in 1..Len(args) |-> <<args[i]>>]
If(c, t) == IF c THEN <<t>> ELSE <<>>
Minor(e) == If(On(e, "minor"), << <<"-ignoreMinorErrors">> >>)
MWG(e) == If(On(e, "useMWG"), << <<"-use", "MWG">> >>)
NumOr(s, d) == IF s \in {"0", "1", "2"} THEN s ELSE d

\* A custom filter among the read arguments replaces the built-in one.
RECURSIVE LastFilter(_, _)
LastFilter(args, i) ==
  IF i >= Len(args) THEN "none"
  ELSE LET later == LastFilter(args, i + 1)
           f == LowerS(args[i + 1])
       IN IF later # "none" THEN later
          ELSE IF LowerS(args[i]) # "-api" THEN "none"
          ELSE IF StartsWith(f, "filter=") THEN (IF Blank(SubSeq(f, 8, Len(f))) THEN "empty" ELSE "custom")
          ELSE IF StartsWith(f, "filter^=") THEN (IF Blank(SubSeq(f, 9, Len(f))) THEN "empty" ELSE "custom")
          ELSE IF f \in {"filter", "filter^"} THEN "custom"
          ELSE "none"
Filter(args) == If(LastFilter(args, 1) # "custom", << <<"-api", "<FILTER>">> >>)

ReadThreads(e) ==
  LET ra == OptL(e, "readArgs") nt == OptL(e, "numericTags") h == Hash(e) IN
  << << <<"-json">> >>, Thread(ra) \o (IF LastFilter(ra, 1) = "empty" THEN << <<"-api", "<FILTER>">> >> ELSE <<>>),
     << <<"-api", "struct=" \o NumOr(Opt(e, "struct"), "0")>> >>,
     [i \in 1..Len(nt) |-> <<"-" \o nt[i] \o "#">>] \o << <<"-all">> >>,
     << <<e.file>> >> >>
  \o (IF LastFilter(ra, 1) = "none" THEN Filter(ra) ELSE <<>>) \o MWG(e)
  \o If(h # "false", << <<"-api", "requesttags=imagedatahash">> >>)
  \o If(h # "false", << <<"-api", "imagehashtype=" \o h>> >>)
  \o If(On(e, "geolocation"), << <<"-api", "geolocation">> >>)
  \o If(On(e, "keepUTCTime"), << <<"-api", "keepUTCTime">> >>)
  \o Minor(e)
ReadRawThreads(e) ==
  LET ra == OptL(e, "readArgs") IN
  << Thread(ra) \o (IF LastFilter(ra, 1) = "empty" THEN << <<"-api", "<FILTER>">> >> ELSE <<>>), << <<e.file>> >> >>
  \o (IF LastFilter(ra, 1) = "none" THEN Filter(ra) ELSE <<>>)
  \o If(\A i \in 1..Len(ra) : ra[i] # "-json", << <<"-json">> >>)
  \o MWG(e) \o Minor(e)

\* Entities are decoded where there are values or arguments that may have some; ExifTool
\* would also escape the values it copies (P23).
HasAmp(args) == \E i \in 1..Len(args) : \E j \in 1..Len(args[i]) : SubSeq(args[i], j, j) = "&"
WriteBase(e, decode) == << << <<"-sep", "\\u001f">> >>, << <<"-api", "struct=" \o NumOr(Opt(e, "struct"), "2")>> >> >> \o If(decode, << <<"-E">> >>) \o MWG(e) \o Minor(e)
Fields(names, op) == [i \in 1..Len(names) |-> <<"\\p-" \o names[i] \o op>>]
\* a change that never applies (ExifTool would expand codes in a new name)
OddName(f) == \E i \in 1..Len(f) : (SubSeq(f, i, i) = "%" \/ (i + 5 <= Len(f) /\ SubSeq(f, i, i + 5) = "\\u005c")) /\ \A j \in i..Len(f) : SubSeq(f, j, j) # "/"
NoFields(e) == << <<IF OddName(e.file) THEN "-FileName-=/" ELSE "-FileName<FileName">> >>
\* Setting a numeric or null coordinate derives further fields (P07); their place is free.
GpsPairs == << <<"GPSLatitude", "GPSLatitudeRef">>, <<"GPSLongitude", "GPSLongitudeRef">>, <<"GPSAltitude", "GPSAltitudeRef">> >>
WriteThreads(e) ==
  << (IF e.fields = <<>> THEN NoFields(e) ELSE Fields(e.fields, "=")) \o Thread(OptL(e, "writeArgs")) \o << <<e.file>> >> >>
  \o WriteBase(e, e.fields # <<>> \/ HasAmp(OptL(e, "writeArgs")))
EditThreads(e) ==
  << [i \in 1..Len(e.edits) |-> <<"\\p-" \o e.edits[i].tag \o (IF e.edits[i].op = "add" THEN "+=" ELSE "-=")>>]
     \o Thread(OptL(e, "writeArgs")) \o << <<e.file>> >> >> \o WriteBase(e, TRUE)
DeleteThreads(e) ==
  << NoFields(e) \o << <<"-all=">> >> \o [i \in 1..Len(e.retain) |-> <<"-" \o e.retain[i] \o "<" \o e.retain[i]>>] \o << <<e.file>> >> >> \o WriteBase(e, FALSE)
BinaryThreads(e) ==
  << << <<"-b">> >>, << <<"-" \o e.tag>> >>, << <<IF On(e, "force") THEN "-W!" ELSE "-W", e.dest>> >>, << <<e.file>> >> >> \o Minor(e)
BufferThreads(e) == << << <<"-json">> >>, << <<"-b">> >>, << <<"-" \o e.tag>> >>, << <<e.file>> >> >> \o Minor(e)
RewriteThreads(e) ==
  << << <<"-all=">>, <<"-tagsfromfile", "@">>, <<"-all:all">>, <<"-unsafe">>, <<"-icc_profile">> >>,
     << <<"-out", e.dest>> >>, << <<e.file>> >> >> \o If(e.repair, << <<"-F">> >>) \o Minor(e)
VersionThreads(e) == << << <<"-ver">> >> >> \o Minor(e)

Threads(e) == CASE e.op = "read"    -> ReadThreads(e)    [] e.op = "readRaw" -> ReadRawThreads(e)
                [] e.op = "write"   -> WriteThreads(e)   [] e.op = "edit"    -> EditThreads(e)
                [] e.op = "delete"  -> DeleteThreads(e)  [] e.op = "binary"  -> BinaryThreads(e)
                [] e.op = "buffer"  -> BufferThreads(e)  [] e.op = "rewrite" -> RewriteThreads(e)
                [] e.op = "version" -> VersionThreads(e)

\* ---- which calls must be refused ----------------------------------------------------
SafeList(l) == \A i \in 1..Len(l) : ~HasControl(l[i]) \/ Blank(l[i])
ValidNames(l) == \A i \in 1..Len(l) : ValidName(l[i])
\* "-api" and "-sep" change what an edit means
EditArgOk(a) == LET l == LowerS(a) IN ~StartsWith(l, "-api") /\ ~StartsWith(l, "-sep")
MustReject(e) ==
  \/ e.op # "version" /\ HasControl(e.file)
  \/ e.op \in {"read", "readRaw"} /\ ~SafeList(OptL(e, "readArgs"))
  \/ e.op = "read" /\ (~ValidNames(OptL(e, "numericTags")) \/ Hash(e) \notin HashNames \cup {"false"})
  \/ e.op \in {"write", "edit"} /\ ~SafeList(OptL(e, "writeArgs"))
  \/ e.op = "write" /\ ~ValidNames(e.fields)
  \/ e.op = "write" /\ e.unencodable
  \/ e.op = "edit" /\ ~EditsOk(e.edits)
  \/ e.op = "edit" /\ \E i \in 1..Len(OptL(e, "writeArgs")) : ~EditArgOk(OptL(e, "writeArgs")[i])
  \/ e.op = "delete" /\ ~ValidNames(e.retain)
  \/ e.op \in {"binary", "buffer"} /\ ~ValidName(e.tag)
  \/ e.op \in {"binary", "rewrite"} /\ ~SafeOut(e.dest)

\* ---- acceptance of a transmitted command ----------------------------------------------
MatchLine(pat, line) == IF StartsWith(pat, "\\p") THEN StartsWith(line, SubSeq(pat, 3, Len(pat))) ELSE line = pat
MatchUnit(u, lines) == Len(lines) >= Len(u) /\ \A i \in 1..Len(u) : MatchLine(u[i], lines[i])
DropBlank(u) == SelectSeq(u, LAMBDA s : ~Blank(s))
\* blank arguments vanish on both sides
Tidy(ts) == LET t1 == [i \in 1..Len(ts) |-> SelectSeq(ts[i], LAMBDA u : DropBlank(u) # <<>>)] IN
            SelectSeq(t1, LAMBDA t : t # <<>>)
RECURSIVE Accept(_, _)
Accept(lines, ts) ==
  IF ts = <<>> THEN lines = <<>>
  ELSE \E i \in 1..Len(ts) :
         /\ MatchUnit(Head(ts[i]), lines)
         /\ Accept(SubSeq(lines, Len(Head(ts[i])) + 1, Len(lines)),
                   IF Len(ts[i]) = 1 THEN RemoveAt(ts, i) ELSE [ts EXCEPT ![i] = Tail(ts[i])])

\* cmd: the transmitted lines.  Exactly one execute line, the last one, and every line
\* intact (a control character would have made further lines for ExifTool).
CommandOk(cmd, ts) ==
  /\ cmd # <<>> /\ cmd[Len(cmd)] = "-execute"
  /\ \A i \in 1..Len(cmd) : ~HasControl(cmd[i])
  /\ Accept(SelectSeq(Front(cmd), LAMBDA s : ~Blank(s)), Tidy(ts))

Absolute(e) == /\ e.op = "version" \/ StartsWith(e.file, "/")
               /\ e.op \in {"binary", "rewrite"} => StartsWith(e.dest, "/")
=============================================================================
