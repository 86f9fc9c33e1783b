CONSTANTS MaxCalls = 2 MaxEdits = 3 Symbols = {97, 98} Coll = FALSE
SPECIFICATION Spec
INVARIANTS Same
CHECK_DEADLOCK FALSE
