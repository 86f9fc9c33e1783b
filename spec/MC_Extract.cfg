CONSTANTS MaxOps = 5
SPECIFICATION Spec
INVARIANTS Authentic NoClobber OnlyDest FailedIsNoop Delivered NothingLost Live
CHECK_DEADLOCK FALSE
