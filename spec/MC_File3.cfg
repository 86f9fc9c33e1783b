CONSTANTS MaxOps = 3
SPECIFICATION Spec
INVARIANTS OnlyTarget NoopIsNoop Backups NothingLost Untouched Counts Idempotent Live
CHECK_DEADLOCK FALSE
