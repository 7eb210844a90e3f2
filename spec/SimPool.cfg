INIT MCInit
NEXT GenNext
CONSTANTS
  Handles = {1, 2, 3}
  MaxLen = 10
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
