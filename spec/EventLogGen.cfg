SPECIFICATION GenSpec
CONSTANTS
  NS = 4
  NT = 3
  Depth = 12
  Mode = "mix"
INVARIANT Emit
INVARIANT GenInv
CHECK_DEADLOCK FALSE
