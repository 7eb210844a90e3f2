INIT MCInit
NEXT MCNext
CONSTANTS
  Slots = {1, 2}
  MaxLen = 5
VIEW View
INVARIANTS NoEmptyNames Monoid Injective
CHECK_DEADLOCK FALSE
