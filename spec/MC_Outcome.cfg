CONSTANTS MaxOut = 2  MaxErr = 2  Ns = {1}
SPECIFICATION Spec
INVARIANTS NeverMaskError NeverInventError WarningsListed NoFilesLost
CHECK_DEADLOCK FALSE
