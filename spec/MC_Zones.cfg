CONSTANTS Pres = {"", "UTC", "GMT"}
SPECIFICATION Spec
INVARIANTS Idempotent Nearest Monotone
CHECK_DEADLOCK FALSE
