INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Handles = {1, 2, 3}
  Vals = {0, 1, 5}
  MaxLen = 6
INVARIANT KeepsAll
CHECK_DEADLOCK FALSE
