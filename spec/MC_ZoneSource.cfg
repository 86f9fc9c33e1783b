SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Total GpsFirst TagsFirst NoEffect
CHECK_DEADLOCK FALSE
