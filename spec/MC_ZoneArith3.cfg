SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS RealAlways AddSubtract DayIs24h
PROPERTY SameInstant
CHECK_DEADLOCK FALSE
