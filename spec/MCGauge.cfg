INIT MCInit
NEXT MCNext
CONSTANTS
  Gauges = {1, 2, 3}
  Sources = {1, 2}
  Kinds = {"plain", "fn", "ptr", "ref"}
  MaxLen = 4
INVARIANT OneKind
PROPERTY Independent
VIEW View
CHECK_DEADLOCK FALSE
