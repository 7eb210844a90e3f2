INIT RingInit
NEXT RingNext
CONSTANTS
  Cap = 3
  Threads = {"a", "b"}
  MaxOps = 2
  Faults = {"wind"}
CONSTRAINT StopWhenWrong
CHECK_DEADLOCK FALSE
