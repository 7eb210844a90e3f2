INIT MCInit
NEXT GenNext
CONSTANTS
  Handles = {1}
  Scopes = {1}
  Steps = {1, 2, 5}
  Amounts = {1}
  MaxLen = 5
  Laws = FALSE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
