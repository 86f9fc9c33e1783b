SPECIFICATION Spec
INVARIANTS Decided PlainStays JunkStays
CHECK_DEADLOCK FALSE
