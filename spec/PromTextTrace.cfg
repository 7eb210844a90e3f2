INIT TraceInit
NEXT TraceNext
CONSTANTS
  Regs = {1, 2}
  Part = "text"
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
