INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Handles = {1, 2}
  Kinds = {"last", "window", "uniform"}
  Caps = {2, 3}
  Wins = {1, 2}
  Others = {3}
  Vals = {1, 2}
  Times = {1, 2, 3, 4}
  MaxLen = 9
  Reads = FALSE
INVARIANTS Bounded FillLevel LastN NothingInvented CountLaw NewestHeld WindowLaw
CHECK_DEADLOCK FALSE
