INIT RingInit
NEXT RingNext
CONSTANTS
  Cap = 3
  Threads = {"a", "b"}
  MaxOps = 3
  Faults = {"none"}
INVARIANTS RingTypes RingOK QuietOK Sane
CHECK_DEADLOCK FALSE
