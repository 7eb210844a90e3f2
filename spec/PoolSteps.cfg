INIT Init
NEXT Next
CONSTANTS
  Nodes = {1, 2, 3, 4}
  Threads = {"a", "b"}
  MaxOps = 3
  FirstOps = 3
  Faults = {"none"}
INVARIANTS Right Exclusive FreeOK Exact
VIEW NoHistory
CHECK_DEADLOCK FALSE
