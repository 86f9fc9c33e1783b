CONSTANTS Depth = 4 Full = TRUE
SPECIFICATION Spec
INVARIANTS Correct NeverStale
PROPERTIES ObjectKept
CHECK_DEADLOCK FALSE
