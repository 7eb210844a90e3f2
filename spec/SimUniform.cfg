INIT MCInit
NEXT GenNext
CONSTANTS
  Handles = {1, 2}
  Kinds = {"uniform"}
  Caps = {2, 3, 4, 5, 8, 16}
  Wins = {1}
  Others = {}
  Vals = {1}
  Times = {1}
  MaxLen = 90
  Reads = FALSE
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
