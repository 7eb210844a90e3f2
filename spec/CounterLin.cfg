INIT LinInit
NEXT LinNext
CONSTANTS Counters = {1, 2, 3, 4}
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
