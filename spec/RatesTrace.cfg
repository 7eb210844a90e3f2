INIT TraceInit
NEXT TraceNext
CONSTANTS
  Handles = {1, 2, 3}
  Scopes = {1, 2, 3}
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
