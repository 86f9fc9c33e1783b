SPECIFICATION MSpec
CONSTANTS NCalls = 2  NKids = 3  CallKinds = {"read", "write"}  Outs = {"warn", "err"} MaxProcs = 2  MaxTasks = 2  Retries = 1  MaxFaults = 1  MaxCloses = 0  MayEnd = FALSE  EndFrom = 0  Hist = FALSE
INVARIANTS P01_OwnAnswer P01_LastAnswer P02_WritesOnce P02_Bounded P02_OneAtATime P02_StopsOnSuccess P03_NothingAfterEnd P04_MaxProcs P04_MaxTasks P04_OneTask
PROPERTIES P01_Once
CHECK_DEADLOCK FALSE
