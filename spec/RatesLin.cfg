INIT LinInit
NEXT LinNext
CONSTANTS
  Handles = {1, 2, 3}
  Scopes = {1, 2, 3}
CONSTRAINT LinProgress
CHECK_DEADLOCK FALSE
