INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Handles = {1, 2, 3}
  Vals = {0, 1, 3}
  MaxMake = 2
  MaxLen = 4
  Codes = {0, 2, 3, 5, 8}
INVARIANTS KeepsAll Statistics
CHECK_DEADLOCK FALSE
