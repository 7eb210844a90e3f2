INIT MCInit
NEXT MCNext
CONSTANTS
  Nodes = {1, 2, 3}
  Threads = {"a", "b"}
  MaxOps = 3
  TagOnPush = TRUE
  TagOnPop = TRUE
INVARIANTS TypeOK Implements OneOwner
PROPERTY Refines
CHECK_DEADLOCK FALSE
