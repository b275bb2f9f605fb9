SPECIFICATION FairSpec
CONSTANTS
  Savers = {s1, s2}
  Subs = {u}
  Types = {a, b}
  Saves = 2
  BCap = 1
  QCap = 1
  Bug = "none"
  MayFail = TRUE
INVARIANT Gapless
INVARIANT Complete
PROPERTY SaversReturn
PROPERTY Served
CHECK_DEADLOCK FALSE
