CONSTANTS
  MaxOps = 7
  MaxKids = 2
SPECIFICATION Spec
INVARIANTS Agreed Track Told
CHECK_DEADLOCK FALSE
