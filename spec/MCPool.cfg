INIT MCInit
NEXT MCNext
CONSTANTS
  Handles = {1, 2, 3}
  MaxLen = 5
INVARIANT Peak
PROPERTIES OneLife Private
VIEW View
CHECK_DEADLOCK FALSE
