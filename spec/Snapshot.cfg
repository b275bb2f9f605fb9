SPECIFICATION Live
CONSTANTS
  Types = {a, b}
  Saves = 5
  Kills = 2
  Bug = "none"
INVARIANT Exact
PROPERTY CatchesUp
CHECK_DEADLOCK FALSE
