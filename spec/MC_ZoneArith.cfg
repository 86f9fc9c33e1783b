SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS RealAlways AddSubtract DayIs24h
PROPERTY SameInstant
CHECK_DEADLOCK FALSE
