INIT MCInit
NEXT GenNext
CONSTANTS
  Gauges = {1, 2}
  Sources = {1, 2}
  Kinds = {"plain", "fn", "ptr", "ref"}
  MaxLen = 4
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
