------------------------------ MODULE TraceLib ------------------------------
(* Validation of recorded events against a specification.  The recorded trace *)
(* is read from the file named by $TRACE; each step consumes one event and    *)
(* decides, with the operator Ok of the specification at hand, whether it is   *)
(* a step the specification allows.  A rejected event is printed and the rest *)
(* of the trace is still examined.  Independent events are cut into $CHUNKS    *)
(* pieces so that TLC's workers share the work.                                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Ok(_), Want(_)     \* Ok(e): e is allowed;  Want(e): what was expected

Trace == ndJsonDeserialize(IOEnv.TRACE)
NEvents == Len(Trace)
K == atoi(IOEnv.CHUNKS)

VARIABLES l, hi

TLInit == \E k \in 0..(K-1) : /\ l = 1 + (k * NEvents) \div K
                              /\ hi = ((k + 1) * NEvents) \div K

Reject(i, want) == PrintT("MISMATCH|" \o ToString(i) \o "|" \o ToString(want))

TLNext == /\ l <= hi
          /\ IF Ok(Trace[l]) THEN TRUE ELSE Reject(l, Want(Trace[l]))
          /\ l' = l + 1
          /\ hi' = hi
=============================================================================
