INIT MCInit
NEXT GenNext
CONSTANTS
  Slots = {1, 2, 3}
  MaxLen = 40
  Mode = "gen"
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
