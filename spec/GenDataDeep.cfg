INIT MCInit
NEXT GenNext
CONSTANTS
  Regs = {1}
  Paths = {1, 2}
  Tags = {1}
  Types = {"c64"}
  Ops = {"get", "data", "datafor"}
  MaxLen = 4
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
