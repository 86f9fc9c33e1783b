------------------------------- MODULE Outcome -------------------------------
(* Classification of ExifTool's answers (property P09).                        *)
(*                                                                             *)
(* ExifTool answers a command with lines on stdout (status lines, a version,   *)
(* ...) and on stderr (warnings, errors, chatter).  A response is modelled as  *)
(* two sequences of line records [k |-> kind, n |-> count, text |-> exact line]*)
(* whose texts are those printed by the exiftool script.  The specification    *)
(* says what each public operation must settle with for each response.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Pad5(n) == LET s == ToString(n) IN
           CASE Len(s) = 1 -> "    " \o s [] Len(s) = 2 -> "   " \o s
             [] Len(s) = 3 -> "  " \o s   [] Len(s) = 4 -> " " \o s
             [] OTHER -> s

\* ---- stdout -----------------------------------------------------------------
OutKinds == {"created", "updated", "unchanged", "werent", "copied", "dirs",
             "scanned", "notupd", "notcre", "failcond", "read", "other"}
OutText(k, n) ==
  CASE k = "created"   -> Pad5(n) \o " image files created"
    [] k = "updated"   -> Pad5(n) \o " image files updated"
    [] k = "unchanged" -> Pad5(n) \o " image files unchanged"
    [] k = "werent"    -> Pad5(n) \o " files weren't updated"
    [] k = "copied"    -> Pad5(n) \o " image files copied"
    [] k = "dirs"      -> Pad5(n) \o " directories created"
    [] k = "scanned"   -> Pad5(n) \o " directories scanned"
    [] k = "notupd"    -> Pad5(n) \o " files weren't updated due to errors"
    [] k = "notcre"    -> Pad5(n) \o " files weren't created due to errors"
    [] k = "failcond"  -> Pad5(n) \o " files failed condition"
    [] k = "read"      -> Pad5(n) \o " image files read"
    [] k = "other"     -> "something else " \o ToString(n)
OutLine(k, n) == [k |-> k, n |-> n, text |-> OutText(k, n)]

\* ---- stderr -----------------------------------------------------------------
\* n distinguishes otherwise equal lines (it becomes part of the file name, and
\* the names look like messages themselves).
ErrKinds == {"warn", "minor", "iptc", "nothing", "todo", "wwarn",
             "error", "opening", "lower", "upper", "locate", "exists", "renaming", "forwriting", "temporary", "chat", "blank"}
File(n) == CASE n % 4 = 1 -> "/tmp/nothing to do/" \o ToString(n) \o ".jpg"
             [] n % 4 = 2 -> "/tmp/Warning: " \o ToString(n) \o ".jpg"
             [] n % 4 = 3 -> "/tmp/1 image files updated/error: " \o ToString(n) \o ".jpg"
             [] OTHER -> "/tmp/f" \o ToString(n) \o ".jpg"
ErrText(k, n) ==
  CASE k = "warn"    -> "Warning: ICC_Profile deleted. Image colors may be affected - " \o File(n)
    [] k = "minor"   -> "Warning: [minor] Possibly incorrect maker notes offsets - " \o File(n)
    [] k = "iptc"    -> "Warning: IPTCDigest is not current. XMP may be out of sync - " \o File(n)
    [] k = "nothing" -> "Error: Nothing to write - " \o File(n)
    [] k = "todo"    -> "Nothing to do. " \o ToString(n)
    [] k = "wwarn"   -> "WARNING: Sorry, Title is not writable " \o ToString(n)
    [] k = "error"   -> "Error: File not found - " \o File(n)
    [] k = "opening" -> "Error opening file - " \o File(n)
    [] k = "lower"   -> "error: Not a valid JPG (looks more like a TXT) - " \o File(n)
    [] k = "upper"   -> "ERROR: Unknown file type - " \o File(n)
    [] k = "locate"  -> "File format error - /tmp/f" \o ToString(n) \o ".jpg"
    [] k = "exists"  -> "Error: '" \o File(n) \o "' already exists - /tmp/a.jpg"
    [] k = "renaming" -> "Error renaming temporary file to " \o File(n)
    [] k = "forwriting" -> "Error opening " \o File(n) \o " for writing"
    [] k = "temporary" -> "Error: Temporary file already exists: " \o File(n) \o "_exiftool_tmp"
    [] k = "chat"    -> "processing stage " \o ToString(n)
    [] k = "blank"   -> "   "
\* The message a rejection carries: the line without a leading "Error: ".
ErrMsg(k, n) ==
  CASE k = "error" -> "File not found - " \o File(n)
    [] k = "exists" -> "'" \o File(n) \o "' already exists - /tmp/a.jpg"
    [] k = "temporary" -> "Temporary file already exists: " \o File(n) \o "_exiftool_tmp"
    [] k = "lower" -> "Not a valid JPG (looks more like a TXT) - " \o File(n)
    [] k = "upper" -> "Unknown file type - " \o File(n)
    [] OTHER -> ErrText(k, n)
ErrLine(k, n) == [k |-> k, n |-> n, text |-> ErrText(k, n)]

IsWarn(x)  == x.k \in {"warn", "minor", "iptc", "nothing", "todo", "wwarn"}
IsError(x) == x.k \in {"error", "opening", "lower", "upper", "locate", "exists", "renaming", "forwriting", "temporary"}

WellFormedResponse(r) ==
  /\ \A i \in 1..Len(r.so) : r.so[i].k \in OutKinds /\ r.so[i].text = OutText(r.so[i].k, r.so[i].n)
  /\ \A i \in 1..Len(r.se) : r.se[i].k \in ErrKinds /\ r.se[i].text = ErrText(r.se[i].k, r.se[i].n)

\* ---- what the operations must settle with --------------------------------------
RECURSIVE SumOf(_, _)
SumOf(so, K) == IF so = <<>> THEN 0
                ELSE (IF Head(so).k \in K THEN Head(so).n ELSE 0) + SumOf(Tail(so), K)

Errors(r)   == SelectSeq(r.se, IsError)
Warnings(r) == SelectSeq(r.se, IsWarn)
FirstError(r) == LET e == Errors(r)[1] IN ErrMsg(e.k, e.n)

RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>>
           ELSE LET rest == Uniq(Front(s)) x == s[Len(s)]
                IN IF Contains(rest, x) THEN rest ELSE Append(rest, x)

Unrecognised(x) == x.k \in {"copied", "scanned", "notupd", "notcre", "failcond", "read", "other"}
Trimmed(x) == CASE x.k = "other" -> x.text
                [] OTHER -> ToString(x.n) \o SubSeq(x.text, Len(Pad5(x.n)) + 1, Len(x.text))

TextOf(x) == x.text
UnexpectedOf(x) == "UNEXPECTED " \o Trimmed(x)
WarnTexts(r) == [i \in 1..Len(Warnings(r)) |-> Warnings(r)[i].text]
UnexpTexts(r) == LET u == SelectSeq(r.so, Unrecognised) IN [i \in 1..Len(u) |-> UnexpectedOf(u[i])]

WriteOutcome(r) ==
  IF Errors(r) # <<>>
  THEN [st |-> "err", msg |-> FirstError(r), created |-> 0, updated |-> 0, unchanged |-> 0, warnings |-> <<>>]
  ELSE [st |-> "ok", msg |-> "",
        created   |-> SumOf(r.so, {"created"}),
        updated   |-> SumOf(r.so, {"updated"}),
        unchanged |-> SumOf(r.so, {"unchanged", "werent"}),
        warnings  |-> Uniq(WarnTexts(r) \o UnexpTexts(r))]

\* A rewrite succeeded iff ExifTool says that it produced the one output image.
Produced(r) == \E i \in 1..Len(r.so) : r.so[i].k \in {"created", "copied"} /\ r.so[i].n = 1
RewriteOutcome(r) ==
  IF Errors(r) # <<>> THEN [st |-> "err", msg |-> FirstError(r)]
  ELSE IF Produced(r) THEN [st |-> "ok", msg |-> ""]
  ELSE [st |-> "err", msg |-> "*"]          \* any message

\* ---- the specification as a transition system ----------------------------------
\* A call is outstanding until the response is complete; ExifTool emits lines one
\* by one; then the call settles.
CONSTANTS MaxOut, MaxErr, Ns
VARIABLES phase, resp, result
vars == <<phase, resp, result>>

NoResult == [st |-> "none"]
Init == phase = "running" /\ resp = [so |-> <<>>, se |-> <<>>] /\ result = NoResult
EmitOut(k, n) == /\ phase = "running" /\ Len(resp.so) < MaxOut
                 /\ resp' = [resp EXCEPT !.so = Append(@, OutLine(k, n))]
                 /\ UNCHANGED <<phase, result>>
EmitErr(k, n) == /\ phase = "running" /\ Len(resp.se) < MaxErr
                 /\ resp' = [resp EXCEPT !.se = Append(@, ErrLine(k, n))]
                 /\ UNCHANGED <<phase, result>>
SettleWrite   == phase = "running" /\ phase' = "done" /\ result' = WriteOutcome(resp) /\ UNCHANGED resp
Next == \/ \E k \in OutKinds, n \in Ns : EmitOut(k, n)
        \/ \E k \in ErrKinds, n \in Ns : EmitErr(k, n)
        \/ SettleWrite
Spec == Init /\ [][Next]_vars

\* P09 on the model
Settled == phase = "done"
NeverMaskError == Settled /\ result.st = "ok" => \A i \in 1..Len(resp.se) : ~IsError(resp.se[i])
NeverInventError == Settled /\ result.st = "err" => \E i \in 1..Len(resp.se) : IsError(resp.se[i])
WarningsListed == Settled /\ result.st = "ok" =>
   \A i \in 1..Len(resp.se) : IsWarn(resp.se[i]) => Contains(result.warnings, resp.se[i].text)
NoFilesLost == Settled /\ result.st = "ok" =>
   result.created + result.updated + result.unchanged
     = SumOf(resp.so, {"created", "updated", "unchanged", "werent"})
=============================================================================
