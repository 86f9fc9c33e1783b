SPECIFICATION Spec
CONSTANTS From = 1896
          To = 2105
INVARIANT Agree
CHECK_DEADLOCK FALSE
