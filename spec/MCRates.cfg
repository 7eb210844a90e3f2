INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Handles = {1, 2}
  Scopes = {1}
  Steps = {1, 2, 5}
  Amounts = {1, 3}
  MaxLen = 6
  Laws = TRUE
INVARIANTS InRange SamePending
PROPERTY Pure
CHECK_DEADLOCK FALSE
