INIT MCInit
NEXT GenNext
CONSTANTS
  Handles = {1, 2}
  Kinds = {"last"}
  Caps = {2, 3}
  Wins = {1}
  Others = {}
  Vals = {1}
  Times = {1}
  MaxLen = 6
  Reads = FALSE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
