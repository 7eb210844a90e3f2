INIT RingInit
NEXT RingNext
CONSTANTS
  Cap = 2
  Threads = {"a", "b"}
  MaxOps = 2
  Faults = {"size", "ticket", "plusone"}
CONSTRAINT StopWhenWrong
CHECK_DEADLOCK FALSE
