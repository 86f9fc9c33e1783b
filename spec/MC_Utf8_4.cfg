CONSTANTS MaxLen = 4
SPECIFICATION Spec
INVARIANTS Idempotent Unchanged Marked Codes
CHECK_DEADLOCK FALSE
