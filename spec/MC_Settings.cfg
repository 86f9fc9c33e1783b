CONSTANTS Obs = {1, 2} Vals = {0, 1, 2} Default = 0 MaxOps = 5 MaxNest = 2
SPECIFICATION Spec
INVARIANTS AlwaysOk NoneLeft Fresh
CHECK_DEADLOCK FALSE
