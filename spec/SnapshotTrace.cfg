INIT TraceInit
NEXT TraceNext
CONSTANTS Handles = {1, 2, 3, 4, 5, 6}
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
