INIT MCInit
NEXT GenNext
CONSTANTS
  Regs = {1, 2}
  Paths = {1, 2}
  Tags = {1}
  Types = {"c64"}
  Ops = {"get", "data", "datafor"}
  MaxLen = 3
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
