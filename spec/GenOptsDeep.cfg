INIT MCInit
NEXT GenNext
CONSTANTS
  Regs = {1}
  Paths = {1, 2}
  Tags = {1}
  Types = {"t1"}
  Ops = {"get", "opts", "optsfor"}
  MaxLen = 5
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
