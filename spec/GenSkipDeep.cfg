INIT MCInit
NEXT GenNext
CONSTANTS
  Iters = {1}
  Keys = {1, 2, 3}
  MaxLen = 6
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
