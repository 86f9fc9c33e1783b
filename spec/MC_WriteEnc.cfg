CONSTANTS Alphabet = {97, 32, 10, 44, 124, 123, 125, 91, 93, 61, 233} MaxLen = 2
SPECIFICATION Spec
INVARIANTS RoundTrip OneLine
CHECK_DEADLOCK FALSE
