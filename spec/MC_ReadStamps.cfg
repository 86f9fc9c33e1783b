SPECIFICATION Spec
INVARIANTS SameInstant NoBackfill ExplicitStays
CHECK_DEADLOCK FALSE
