INIT TraceInit
NEXT TraceNext
CONSTANTS
  Regs = {1, 2}
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
