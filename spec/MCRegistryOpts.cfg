INIT MCInit
NEXT MCNext
CONSTANTS
  Regs = {1, 2}
  Paths = {1, 2}
  Tags = {1}
  Types = {"c64"}
  Ops = {"get", "opts", "optsfor", "data", "datafor"}
  MaxLen = 5
VIEW View
INVARIANTS OwnSlot Typed DataOwners AggregateLaw
PROPERTY Stable
CHECK_DEADLOCK FALSE
