CONSTANTS Depth = 5 Full = TRUE
SPECIFICATION Spec
INVARIANTS Correct NeverStale
PROPERTIES ObjectKept
CHECK_DEADLOCK FALSE
