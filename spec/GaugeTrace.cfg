INIT TraceInit
NEXT TraceNext
CONSTANTS Gauges = {1, 2, 3, 4}
Sources = {1, 2, 3}
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
