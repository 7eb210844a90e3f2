INIT MCInit
NEXT GenNext
CONSTANTS
  Handles = {1, 2, 3}
  Vals = {0, 1}
  MaxMake = 2
  MaxLen = 4
  Codes = {0}
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
