INIT MCInit
NEXT GenNext
CONSTANTS
  Handles = {1}
  Scopes = {1, 2}
  Waits = {1}
  MaxLen = 6
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
