SPECIFICATION Spec
INVARIANTS InRange Mirror Forms AtMostTwo
CHECK_DEADLOCK FALSE
