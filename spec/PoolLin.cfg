INIT LinInit
NEXT LinNext
CONSTANTS Handles = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
VIEW LinView
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
