INIT TraceInit
NEXT TraceNext
CONSTANTS Stacks = {1, 2, 3}
Ptrs = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
