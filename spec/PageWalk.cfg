SPECIFICATION Spec
CONSTANTS
  Streams = {x, y}
  Saves = 5
  Deletes = 1
  Steps = 5
  Per = 2
  Bug = "none"
INVARIANTS Fits Once Everything BackAgain
CHECK_DEADLOCK FALSE
