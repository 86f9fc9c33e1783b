CONSTANTS Alphabet = {"a", "-", "x", "\n", " "}  MaxLen = 2  MaxArgs = 2  MaxCalls = 1
SPECIFICATION CSpec
INVARIANTS OnlyAccepted AllRun
CHECK_DEADLOCK FALSE
