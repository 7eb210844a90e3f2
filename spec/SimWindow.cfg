INIT MCInit
NEXT GenNext
CONSTANTS
  Handles = {1, 2}
  Kinds = {"window"}
  Caps = {2, 3, 4, 5, 8, 16}
  Wins = {1, 2}
  Others = {1, 3, 4}
  Vals = {1}
  Times = {1, 2, 3, 4, 5, 6}
  MaxLen = 60
  Reads = FALSE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
