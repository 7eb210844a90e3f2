INIT RingInit
NEXT RingNext
CONSTANTS
  Cap = 2
  Threads = {"a", "b"}
  MaxOps = 2
  Faults = {"none"}
INVARIANTS RingTypes RingOK QuietOK Sane
CHECK_DEADLOCK FALSE
