INIT LinInit
NEXT LinNext
CONSTANTS
  Regs = {1, 2}
CONSTRAINT LinProgress
CHECK_DEADLOCK FALSE
VIEW LinView
