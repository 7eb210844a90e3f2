INIT ParTraceInit
NEXT ParTraceNext
CONSTRAINT Progress
INVARIANT Sane
CHECK_DEADLOCK FALSE
