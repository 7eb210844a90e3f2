INIT MCInit
NEXT GenNext
CONSTANTS
  Stacks = {1, 2}
  Ptrs = {1, 2}
  MaxLen = 4
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
