INIT MCInit
NEXT GenNext
CONSTANTS
  Handles = {1, 2}
  Kinds = {"window"}
  Caps = {2, 3}
  Wins = {1}
  Others = {3}
  Vals = {1}
  Times = {1, 2, 3}
  MaxLen = 5
  Reads = FALSE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
