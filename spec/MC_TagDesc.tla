------------------------------ MODULE MC_TagDesc ------------------------------
(* An abstract implementation with a disk cache: loads read a cache that may be    *)
(* anything a crash or another version left behind, and write one that a crash may *)
(* cut short.  Its answers are those of TagDesc.tla, which knows no disk.          *)
EXTENDS TagDesc, TLC
CONSTANTS MaxOps
Vers == {"1", "2"}
Langs == {"en", "de"}
Names == {"a", "b", "c"}
Cur == "a" :> "curated a"
Table == [k \in (Vers \X Langs \X Names) \ {<<"1", "de", "b">>, <<"2", "en", "c">>, <<"2", "de", "c">>} |-> k[1] \o k[2] \o k[3]]
Files == Vers \X Langs                    \* the file's name says version and language ...
Kinds == {<<"none", "">>, <<"cut", "">>, <<"junk", "">>} \cup Files    \* ... its content may be of another
VARIABLES v, health, disk, mem, bad, spec, n, last
vars == <<v, health, disk, mem, bad, spec, n, last>>
Objs == {<<1, "en">>, <<2, "de">>}
Lang(o) == o[2]
Init == /\ v = "1" /\ health = "ok" /\ disk = [f \in Files |-> <<"none", "">>] /\ n = 0 /\ last = [st |-> "none"]
        /\ mem = [o \in Objs |-> ""] /\ bad = [o \in Objs |-> FALSE] /\ spec = [o \in Objs |-> New]
Env == \/ \E h \in {"ok", "nover", "nolist"}, x \in Vers : health' = h /\ v' = x /\ UNCHANGED <<disk, mem, bad, spec>> /\ last' = [st |-> "none"]
       \/ \E f \in Files, k \in Kinds : disk' = [disk EXCEPT ![f] = k] /\ UNCHANGED <<v, health, mem, bad, spec>> /\ last' = [st |-> "none"]
Clear(o) == mem' = [mem EXCEPT ![o] = ""] /\ bad' = [bad EXCEPT ![o] = FALSE] /\ spec' = [spec EXCEPT ![o] = New]
            /\ UNCHANGED <<v, health, disk>> /\ last' = [st |-> "none"]
Lookup(o) ==
  LET f == <<v, Lang(o)>>
      hit == health # "nover" /\ disk[f] = f
      go == mem[o] # "" \/ (~bad[o] /\ (hit \/ health = "ok"))
      m2 == IF mem[o] # "" THEN mem[o] ELSE IF go THEN v ELSE "" IN
  /\ mem' = [mem EXCEPT ![o] = m2]
  /\ bad' = [bad EXCEPT ![o] = ~go]
  /\ disk' \in (IF mem[o] = "" /\ go /\ ~hit THEN {[disk EXCEPT ![f] = f], [disk EXCEPT ![f] = <<"cut", "">>], disk} ELSE {disk})
  /\ UNCHANGED <<v, health>>
  /\ LET rs == {r \in Loads(spec[o], v, health) : r.st = (IF go THEN "ok" ELSE "err") /\ (go => r.o.ver = m2)} IN
     IF rs = {} THEN last' = [st |-> "impossible"] /\ spec' = spec
     ELSE LET r == CHOOSE x \in rs : TRUE IN spec' = [spec EXCEPT ![o] = r.o] /\ last' = [st |-> r.st, o |-> o, ver |-> m2]
Next == n < MaxOps /\ n' = n + 1 /\ (Env \/ \E o \in Objs : Clear(o) \/ Lookup(o))
Spec == Init /\ [][Next]_vars
Refines == last.st # "impossible"
\* after clearing, with ExifTool well, the answer is that of the version in use
Healthy == \A o \in Objs : (spec[o] = New /\ health = "ok") => {r.o.ver : r \in Loads(spec[o], v, health)} = {v}
Fresh == \A o \in Objs : mem[o] = spec[o].ver
NotStale == last.st = "ok" => \A x \in Names : Right(Table, Cur, mem[last.o], Lang(last.o), x) \in {"", "curated a"} \cup {mem[last.o] \o Lang(last.o) \o x}
=============================================================================
