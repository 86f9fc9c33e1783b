CONSTANTS Insts = {1, 2} Names = {"a", "b"} Vals = {"x", "y"} MaxCalls = 2
SPECIFICATION Spec
INVARIANTS NoLeak OwnWins
CHECK_DEADLOCK FALSE
