INIT MCInit
NEXT GenNext
CONSTANTS
  Counters = {1, 2}
  Types = {"i8", "u8"}
  Amounts = {100, 127}
  MaxLen = 4
  Ops = {"incr", "set", "subas", "addas", "preinc", "predec", "postinc", "cval", "ccopy", "cmove", "cassign", "cmassign"}
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
