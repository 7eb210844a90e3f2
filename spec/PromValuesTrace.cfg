INIT TraceInit
NEXT TraceNext
CONSTANTS
  Regs = {1, 2}
  Part = "values"
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
