CONSTANTS MaxCalls = 2 MaxEdits = 2 Symbols = {97, 98} Coll = TRUE
SPECIFICATION Spec
INVARIANTS Same
CHECK_DEADLOCK FALSE
