INIT TraceInit
NEXT TraceNext
CONSTANTS Iters = {1, 2, 3}
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
