SPECIFICATION Spec
CONSTANTS From = 2
          To = 9998
INVARIANT Agree
CHECK_DEADLOCK FALSE
