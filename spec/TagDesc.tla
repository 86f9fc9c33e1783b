-------------------------------- MODULE TagDesc --------------------------------
(* Tag descriptions.  listing(v, l, n) is the description that ExifTool version v  *)
(* gives tag n in language l ("" if none); curated(n) the library's own English     *)
(* text ("" if none).  What is in the disk cache does not occur here: it must not    *)
(* matter.                                                                         *)
(*                                                                                 *)
(* A lookup object loads its descriptions once and keeps them until it is cleared.   *)
(* o.ver: the version loaded ("" if none); o.failed: a load failed since the object  *)
(* was cleared; o.fresh: nothing happened since then.                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

New == [ver |-> "", failed |-> FALSE, fresh |-> TRUE]
Right(listing, curated, v, l, n) ==
  IF l = "en" /\ n \in DOMAIN curated THEN curated[n] ELSE IF <<v, l, n>> \in DOMAIN listing THEN listing[<<v, l, n>>] ELSE ""
IsCurated(curated, l, n) == l = "en" /\ n \in DOMAIN curated

\* The possible outcomes of needing the descriptions now: a new state, and whether the
\* call can go on.  health is how ExifTool fares: ok, nover (even its version cannot be
\* had), nolist (the listing fails: a good copy on disk may stand in for it).
Loads(o, v, health) ==
  IF o.ver # "" THEN {[o |-> [o EXCEPT !.fresh = FALSE], st |-> "ok"]}
  ELSE LET good == [o |-> [ver |-> v, failed |-> FALSE, fresh |-> FALSE], st |-> "ok"]
           bad  == [o |-> [ver |-> "", failed |-> TRUE, fresh |-> FALSE], st |-> "err"] IN
       CASE health = "ok" /\ ~o.failed -> {good}
         [] health = "ok"              -> {good, bad}      \* the failure may be remembered until cleared
         [] health = "nolist"          -> {good, bad}
         [] OTHER                      -> {bad}

AllRight(listing, curated, v, l, names, m) ==
  \A n \in names : LET r == Right(listing, curated, v, l, n) IN
     IF r = "" THEN n \notin DOMAIN m ELSE n \in DOMAIN m /\ m[n] = r
=============================================================================
