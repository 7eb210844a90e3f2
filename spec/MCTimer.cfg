INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Handles = {1}
  Scopes = {1, 2}
  Waits = {1, 2}
  MaxLen = 8
INVARIANT Count
CHECK_DEADLOCK FALSE
