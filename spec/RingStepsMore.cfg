INIT RingInit
NEXT RingNext
CONSTANTS
  Cap = 2
  Threads = {"a", "b", "c"}
  MaxOps = 1
  Faults = {"none"}
INVARIANTS RingTypes RingOK QuietOK Sane
CHECK_DEADLOCK FALSE
