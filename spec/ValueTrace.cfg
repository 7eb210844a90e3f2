INIT TraceInit
NEXT TraceNext
CONSTANTS Slots = {1, 2, 3, 4}
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
