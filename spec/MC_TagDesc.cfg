CONSTANTS MaxOps = 5
SPECIFICATION Spec
INVARIANTS Refines Healthy Fresh NotStale
CHECK_DEADLOCK FALSE
