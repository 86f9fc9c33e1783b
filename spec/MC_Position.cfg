SPECIFICATION Spec
INVARIANTS Stable Magnitude SouthIsNegative NearStays OneOf
CHECK_DEADLOCK FALSE
