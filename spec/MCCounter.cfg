INIT MCInit
NEXT MCNext
CONSTANTS
  Counters = {1, 2}
  Types = {"i8", "u8"}
  Amounts = {100, 1, 127}
  MaxLen = 5
  Ops = {"incr", "set", "subas", "addas", "preinc", "predec", "postinc", "cval", "ccopy", "cmove", "cassign", "cmassign"}
VIEW View
INVARIANTS InRange Modular
CHECK_DEADLOCK FALSE
