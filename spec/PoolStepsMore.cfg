INIT Init
NEXT Next
CONSTANTS
  Nodes = {1, 2, 3, 4}
  Threads = {"a", "b", "c"}
  MaxOps = 2
  FirstOps = 1
  Faults = {"none"}
INVARIANTS Right Exclusive FreeOK Exact
VIEW NoHistory
CHECK_DEADLOCK FALSE
