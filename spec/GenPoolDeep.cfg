INIT MCInit
NEXT GenNext
CONSTANTS
  Handles = {1, 2}
  MaxLen = 4
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
