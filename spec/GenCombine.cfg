INIT MCInit
NEXT GenNext
CONSTANTS
  Handles = {1, 2, 3}
  Vals = {1}
  MaxLen = 7
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
