INIT MCInit
NEXT GenNext
CONSTANTS
  Stacks = {1, 2}
  Ptrs = {1, 2}
  MaxLen = 5
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
