SPECIFICATION Spec
CONSTANTS
  Clients = {h, s1}
  Stuck = {s1}
  Saves = 4
  RCap = 1
  BCap = 1
  CCap = 1
  Bug = "none"
INVARIANT InOrder
PROPERTY StoreIsFree
PROPERTY NeverSilent
CHECK_DEADLOCK FALSE
