INIT MCInit
NEXT GenNext
CONSTANTS
  Handles = {1, 2}
  Kinds = {"last"}
  Caps = {2}
  Wins = {1}
  Others = {}
  Vals = {1}
  Times = {1}
  MaxLen = 7
  Reads = FALSE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
