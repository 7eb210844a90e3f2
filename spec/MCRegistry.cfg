INIT MCInit
NEXT MCNext
CONSTANTS
  Regs = {1, 2}
  Paths = {1, 2}
  Tags = {1, 2}
  Types = {"c64", "g"}
  Ops = {"get", "make", "reg", "upd"}
  MaxLen = 4
VIEW View
INVARIANTS OwnSlot Typed DataOwners AggregateLaw
PROPERTY Stable
CHECK_DEADLOCK FALSE
