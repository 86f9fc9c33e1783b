SPECIFICATION Spec
INVARIANTS Injective Successor
CHECK_DEADLOCK FALSE
