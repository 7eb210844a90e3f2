INIT MCInit
NEXT MCNext
CONSTANTS
  Slots = {1, 2, 3}
  MaxLen = 1
  Mode = "laws"
INVARIANT Laws
CHECK_DEADLOCK FALSE
