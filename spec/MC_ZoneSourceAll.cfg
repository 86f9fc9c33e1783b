SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Total GpsFirst TagsFirst NoEffect
CHECK_DEADLOCK FALSE
