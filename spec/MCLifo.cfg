INIT MCInit
NEXT MCNext
CONSTANTS
  Stacks = {1, 2}
  Ptrs = {1, 2}
  MaxLen = 5
INVARIANTS NoDup OnlyGiven
PROPERTY NoLoss
VIEW View
CHECK_DEADLOCK FALSE
