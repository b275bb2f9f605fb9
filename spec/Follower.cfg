SPECIFICATION Spec
CONSTANTS
  Saves = 4
  Deletes = 2
  Breaks = 2
  Room = 2
  Bug = "none"
INVARIANTS Once NoGap
PROPERTY CaughtUp
CHECK_DEADLOCK FALSE
