INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Handles = {1, 2}
  Kinds = {"last", "window", "uniform"}
  Caps = {2, 3}
  Wins = {1}
  Others = {3}
  Vals = {1, 2}
  Times = {1, 2, 3}
  MaxLen = 7
  Reads = TRUE
INVARIANTS Bounded FillLevel LastN NothingInvented CountLaw NewestHeld WindowLaw
CHECK_DEADLOCK FALSE
