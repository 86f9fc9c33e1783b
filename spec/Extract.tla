------------------------------- MODULE Extract -------------------------------
(* Extraction of embedded binary values.  fs maps the names of the regular       *)
(* files to their contents; a content that is an image embeds values: emb maps   *)
(* it to its tags' contents (an extracted value is a file like any other, which  *)
(* usually embeds nothing).  Names in `blocked` can hold no file: directories,    *)
(* and names below a file.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Value(fs, emb, src, tag) ==
  IF src \in DOMAIN fs /\ fs[src] \in DOMAIN emb /\ tag \in DOMAIN emb[fs[src]] THEN emb[fs[src]][tag] ELSE ""

\* effective option: the call's, else the instance's
Forced(call, instance) == IF call = "unset" THEN instance = "yes" ELSE call = "yes"

\* why an extraction to a file must fail
Refused(fs, emb, blocked, o) ==
  \/ o.badtag
  \/ Value(fs, emb, o.src, o.tag) = ""
  \/ o.dest \in blocked
  \/ o.dest \in DOMAIN fs /\ ~Forced(o.call, o.instance)

Put(fs, n, c) == [x \in DOMAIN fs \cup {n} |-> IF x = n THEN c ELSE fs[x]]

\* the possible results of an extraction: an answer and the files left behind.  `odd`
\* destinations are names ExifTool cannot be given verbatim: refusing them is right, too.
Results(fs, emb, blocked, o) ==
  LET refused == [st |-> "err", fs |-> fs]
      done    == [st |-> "ok", fs |-> Put(fs, o.dest, Value(fs, emb, o.src, o.tag))] IN
  IF Refused(fs, emb, blocked, o) THEN {refused}
  ELSE IF o.odd THEN {refused, done} ELSE {done}

(* The same to a buffer: nothing is written at all. *)
BufferOk(fs, emb, o) ==
  LET v == IF o.badtag THEN "" ELSE Value(fs, emb, o.src, o.tag) IN
  IF v = "" THEN o.st = "err" ELSE o.st = "ok" /\ o.got = v

(* A history of one directory tree.  Each event carries its answer, and the files *)
(* found after it (seen: a set of name/content pairs) unless others are in flight. *)
SeenOk(fs, e) == e.quiet => /\ \A i \in 1..Len(e.seen) : e.seen[i][1] \in DOMAIN fs /\ fs[e.seen[i][1]] = e.seen[i][2]
                            /\ Len(e.seen) = Cardinality(DOMAIN fs)
XStep(s, emb, blocked, e) ==
  IF e.op = "buffer" THEN [s EXCEPT !.ok = BufferOk(s.fs, emb, e) /\ SeenOk(s.fs, e)]
  ELSE LET rs == {r \in Results(s.fs, emb, blocked, e) : r.st = e.st} IN
       IF rs = {} THEN [s EXCEPT !.ok = FALSE]
       ELSE LET r == CHOOSE x \in rs : TRUE IN [fs |-> r.fs, ok |-> SeenOk(r.fs, e)]
XRun(fs, emb, blocked, h) == FoldLeft(LAMBDA s, e : IF s.ok THEN XStep(s, emb, blocked, e) ELSE s, [fs |-> fs, ok |-> TRUE], h)

(* What ExifTool's answer to one extraction means: exactly one file was made,     *)
(* and no error reported.                                                        *)
AnswerOk(so, se, passed) == /\ \E i \in 1..Len(so) : so[i].k = "made" /\ so[i].n = 1
                            /\ \A i \in 1..Len(so) : so[i].k = "made" => so[i].n = 1
                            /\ \A i \in 1..Len(se) : se[i].k # "error"
=============================================================================
