INIT MCInit
NEXT GenNext
CONSTANTS
  Handles = {1}
  Scopes = {1, 2}
  Waits = {1}
  MaxLen = 5
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
