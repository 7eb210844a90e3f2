INIT Init
NEXT Next
CONSTANTS
  Nodes = {1, 2, 3, 4}
  Threads = {"a", "b"}
  MaxOps = 3
  FirstOps = 2
  Faults = {"untagged", "split", "late", "stale", "splitadd"}
CONSTRAINT StopWhenWrong
CHECK_DEADLOCK FALSE
