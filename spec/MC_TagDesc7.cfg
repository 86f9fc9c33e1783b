CONSTANTS MaxOps = 7
SPECIFICATION Spec
INVARIANTS Refines Healthy Fresh NotStale
CHECK_DEADLOCK FALSE
