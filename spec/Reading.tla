-------------------------------- MODULE Reading --------------------------------
(* What a read reports for each tag that ExifTool reported.                      *)
(* A reported value v is a tree:                                                 *)
(*   [k |-> "text", form, s, f, off]  text s; its form says what it denotes      *)
(*   [k |-> "lit", s]                 number or boolean                          *)
(*   [k |-> "null"]                                                              *)
(*   [k |-> "list", xs], [k |-> "struct", names, vals]                           *)
(* Forms: "dt" date and time, "date", "time", "part" (incomplete date), "zeros", *)
(* "zero" (0), "bin" (binary marker), "yes", "no", "gone" (placeholder), "junk". *)
(* f: year, month, day, hour, minute, second, millisecond; off: minutes or 9999. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* the meaning of names: what their tags may denote
Kinds == [
  DateTimeOriginal |-> {"date", "time"}, SubSecDateTimeOriginal |-> {"date", "time"}, DateTimeUTC |-> {"date", "time"},
  GPSDateTime |-> {"date", "time"}, SonyDateTime2 |-> {"date", "time"}, DateTimeDigitized |-> {"date", "time"},
  CreateDate |-> {"date"}, ModifyDate |-> {"date"}, FileModifyDate |-> {"date"}, MediaCreateDate |-> {"date"}, GPSDateStamp |-> {"date"},
  CreationDate |-> {"date"}, DateCreated |-> {"date"}, ReleaseDate |-> {"date"}, MetadataDate |-> {"date"}, Date |-> {"date"}, UpdateMode |-> {"date"},
  TimeCreated |-> {"time"}, GPSTimeStamp |-> {"time"}, SubSecTime |-> {"time"}, SubSecTimeOriginal |-> {"time"}, ExposureTime |-> {"time"},
  TimeStamp |-> {"time"}, MacroTime |-> {"time"}, Time |-> {"time"}, LifetimeUses |-> {"time"}, TimecodeText |-> {"time"},
  When |-> {"when"}, HistoryWhen |-> {"when"}, VersionsEventWhen |-> {"when"},
  Creator |-> {}, CreatorTool |-> {}, ModifiedBy |-> {}, Make |-> {}, Title |-> {}, Keywords |-> {}, History |-> {}, RegionInfo |-> {}, Duration |-> {}, Rating |-> {}, Da |-> {}, Binary |-> {},
  Field |-> {}, Name |-> {}, valueOf |-> {}, toString |-> {}, hasOwnProperty |-> {}, constructor |-> {},
  IPTCDigestValid |-> {"valid"}, Valid |-> {"valid"}, ChecksumValid |-> {"valid"}, DateValid |-> {"valid", "date"}, ValidBits |-> {}, ValidDate |-> {"date"},
  ExifToolVersion |-> {"asis"}, DateStampMode |-> {"asis"}, Sharpness |-> {"asis"}, Firmware |-> {"asis"}, DateDisplayFormat |-> {"asis"} ]
Names == DOMAIN Kinds
\* a field of a structure is also known by the names around it
Inside(ks, name) == ((ks \cup Kinds[name]) \ {"asis", "valid"}) \cup (IF "valid" \in Kinds[name] THEN {"valid"} ELSE {})
                    \cup (CASE name = "DateStampMode" -> {"date"} [] name = "DateDisplayFormat" -> {"date"} [] OTHER -> {})
Omitted(v) == v.k = "null" \/ (v.k = "text" /\ v.form = "gone")
Meets(ks, set) == ks \cap set # {}
\* what the text must become; "raw": it stays as it is
Must(ks, form) ==
  CASE "asis" \in ks -> {"raw"}
    [] form = "bin" -> {"Binary"}
    [] form \in {"yes", "no", "zero"} /\ "valid" \in ks -> {"bool"}
    [] form = "dt" /\ Meets(ks, {"date", "time", "when"}) -> {"DateTime"}
    [] form = "time" /\ Meets(ks, {"time", "when"}) -> {"Time"}
    [] form = "time" /\ "date" \in ks -> {"raw", "Date"}       \* ambiguous: 03:04:05
    [] form = "date" /\ Meets(ks, {"date", "when"}) -> {"Date"}
    [] form \in {"part", "yes", "no"} /\ Meets(ks, {"date", "when"}) -> {"raw", "Date"}
    [] OTHER -> {"raw"}
FieldsOf(k, f) == CASE k = "DateTime" -> f [] k = "Date" -> SubSeq(f, 1, 3) [] k = "Time" -> SubSeq(f, 4, 7)
TextOk(ks, v, o) ==
  /\ (IF o.k = "text" THEN "raw" ELSE o.k) \in Must(ks, v.form)
  /\ CASE o.k = "text" -> o.s = v.s
       [] o.k = "Binary" -> o.bytes = v.f[1] /\ o.raw = v.s
       [] o.k = "bool" -> o.b = (v.form = "yes")
       [] o.k \in {"DateTime", "Time"} -> o.raw = v.s /\ o.f = FieldsOf(o.k, v.f) /\ (v.off # 9999 => o.off = v.off)
       [] o.k = "Date" -> o.raw = v.s /\ (v.form = "date" => o.f = FieldsOf("Date", v.f))
       [] OTHER -> FALSE
RECURSIVE Accept(_, _, _)
Accept(ks, v, o) ==
  CASE Omitted(v) -> o.k = "absent"
    [] v.k = "lit" -> o.k = "lit" /\ o.s = v.s
    [] v.k = "text" -> TextOk(ks, v, o)
    [] v.k = "list" -> o.k = "list" /\ Len(o.xs) = Len(v.xs) /\ \A i \in 1..Len(v.xs) : IF "asis" \in ks /\ Omitted(v.xs[i]) THEN TRUE ELSE Accept(ks, v.xs[i], o.xs[i])
    [] v.k = "struct" -> /\ o.k = "struct" /\ Len(o.vals) = Len(v.vals)
                         /\ \A i \in 1..Len(v.vals) : Accept(Inside(ks, v.names[i]), v.vals[i], o.vals[i])
\* where it differs
RECURSIVE Diffs(_, _, _)
Diffs(ks, v, o) == IF Accept(ks, v, o) THEN {}
  ELSE IF v.k = "list" /\ o.k = "list" /\ Len(o.xs) = Len(v.xs) THEN UNION {Diffs(ks, v.xs[i], o.xs[i]) : i \in 1..Len(v.xs)}
  ELSE IF v.k = "struct" /\ o.k = "struct" THEN UNION {Diffs(Inside(ks, v.names[i]), v.vals[i], o.vals[i]) : i \in 1..Len(v.vals)}
  ELSE {<<ks, v, o>>}
\* entries of a result that are no tags of the file
Additions == {"SourceFile", "errors", "warnings", "zone", "tz", "tzSource"}
=================================================================================
