CONSTANTS Alphabet = {"a", "x", "\n", " "}  MaxLen = 1  MaxArgs = 2  MaxCalls = 3
SPECIFICATION CSpec
INVARIANTS OnlyAccepted AllRun
CHECK_DEADLOCK FALSE
