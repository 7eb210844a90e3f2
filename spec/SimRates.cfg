INIT MCInit
NEXT GenNext
CONSTANTS
  Handles = {1, 2}
  Scopes = {1}
  Steps = {1, 2, 5}
  Amounts = {0, 1}
  MaxLen = 30
  Laws = FALSE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
