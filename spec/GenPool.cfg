INIT MCInit
NEXT GenNext
CONSTANTS
  Handles = {1, 2}
  MaxLen = 3
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
