INIT Init
NEXT Next
CONSTANTS
  Nodes = {1, 2, 3, 4}
  Threads = {"a", "b", "c"}
  MaxOps = 3
  FirstOps = 2
  Faults = {"none"}
INVARIANTS Right Exclusive FreeOK Exact
VIEW NoHistory
CHECK_DEADLOCK FALSE
