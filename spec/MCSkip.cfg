INIT MCInit
NEXT MCNext
CONSTANTS
  Iters = {1}
  Keys = {1, 2, 3}
  MaxLen = 6
INVARIANTS Distinct Ascending Walk
PROPERTY Gone
VIEW View
CHECK_DEADLOCK FALSE
