CONSTANTS MaxLen = 3
SPECIFICATION Spec
INVARIANTS Idempotent Unchanged Marked Codes
CHECK_DEADLOCK FALSE
