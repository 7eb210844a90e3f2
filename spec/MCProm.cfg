INIT Init
NEXT Next
CONSTANTS
  MaxText = 3
  MaxLabels = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
