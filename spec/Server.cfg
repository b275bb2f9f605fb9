SPECIFICATION Spec
CONSTANTS
  Web = {w1, w2}
  Rpc = {g1}
  Lives = 3
  Bug = "none"
INVARIANT Inv
PROPERTY WebServed
PROPERTY Stops
PROPERTY CatchesUp
CHECK_DEADLOCK FALSE
