------------------------------ MODULE EditRules ------------------------------
(* Which tag edits are acceptable (properties P05 and P08).                     *)
(* An edit is [tag, op, hasValue, hasPred, kind, cps, name, uri, extra]: kind   *)
(* "str" (cps: its code points), "coll" (a collection with optional name and    *)
(* uri, each [set, cps]) or "bad" (anything else).                              *)
EXTENDS Integers, Sequences, FiniteSets

AddTags == {"IPTC:CatalogSets", "IPTC:Keywords", "MIE-Doc:Keywords", "XMP-acdsee:Keywords", "XMP-dc:Subject",
            "XMP-digiKam:TagsList", "XMP-expressionmedia:CatalogSets", "XMP-expressionmedia:People",
            "XMP-iptcExt:PersonInImage", "XMP-lr:HierarchicalSubject", "XMP-mediapro:CatalogSets",
            "XMP-mediapro:People", "XMP-microsoft:LastKeywordXMP"}
RemoveOnlyTags == {"XMP-MP:RegionPersonDisplayName", "XMP-acdsee-rs:ACDSeeRegionName", "XMP-mwg-rs:RegionName", "XMP-xmpDM:Album"}
CollTag == "XMP-mwg-coll:Collections"
Vocabulary == AddTags \cup RemoveOnlyTags \cup {CollTag}

\* exactly representable code points
CpOk(c) == /\ ~(c <= 8) /\ c # 11 /\ c # 12 /\ ~(c >= 14 /\ c <= 31)
           /\ c # 13                                   \* XML readers turn it into a line feed
           /\ ~(c >= 55296 /\ c <= 57343)              \* lone surrogates
           /\ ~(c >= 64976 /\ c <= 65007)
           /\ (c % 65536) \notin {65534, 65535}
CpsOk(s) == \A i \in 1..Len(s) : CpOk(s[i])

EditOk(x) ==
  /\ x.tag \in Vocabulary
  /\ x.op \in {"add", "remove"}
  /\ IF x.tag = CollTag
     THEN /\ x.kind = "coll" /\ ~x.extra /\ CpsOk(x.name.cps) /\ CpsOk(x.uri.cps)
          /\ IF x.op = "add" THEN x.hasValue /\ ~x.hasPred /\ x.name.set /\ x.uri.set
             ELSE x.hasPred /\ ~x.hasValue /\ (x.name.set \/ x.uri.set)
     ELSE /\ x.hasValue /\ ~x.hasPred /\ x.kind = "str" /\ x.cps # <<>> /\ CpsOk(x.cps)
          /\ x.op = "add" => x.tag \in AddTags

\* An addition that a later removal of the same call would have to undo.
CollMatch(v, p) == (p.name.set => v.name.cps = p.name.cps) /\ (p.uri.set => v.uri.cps = p.uri.cps)
Conflict(a, b) == /\ a.op = "add" /\ b.op = "remove" /\ a.tag = b.tag
                  /\ IF a.tag = CollTag THEN CollMatch(a, b) ELSE a.cps = b.cps
EditsOk(xs) == /\ xs # <<>>
               /\ \A i \in 1..Len(xs) : EditOk(xs[i])
               /\ \A i \in 1..Len(xs) : \A j \in (i + 1)..Len(xs) : ~Conflict(xs[i], xs[j])
=============================================================================
