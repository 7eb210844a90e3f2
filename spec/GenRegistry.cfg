INIT MCInit
NEXT GenNext
CONSTANTS
  Regs = {1}
  Paths = {1, 2}
  Tags = {1, 2}
  Types = {"c64", "gs"}
  Ops = {"get", "reg", "upd"}
  MaxLen = 3
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
