INIT MCInit
NEXT MCNext
CONSTANTS
  Nodes = {1, 2, 3}
  Threads = {"a", "b"}
  MaxOps = 3
  TagOnPush = FALSE
  TagOnPop = FALSE
CONSTRAINT StopWhenWrong
CHECK_DEADLOCK FALSE
