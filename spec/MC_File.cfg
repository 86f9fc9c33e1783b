CONSTANTS MaxOps = 2
SPECIFICATION Spec
INVARIANTS OnlyTarget NoopIsNoop Backups NothingLost Untouched Counts Idempotent Live
CHECK_DEADLOCK FALSE
