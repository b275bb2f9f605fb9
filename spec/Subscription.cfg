SPECIFICATION Spec
CONSTANTS
  Savers = {s1, s2}
  Subs = {u}
  Types = {a, b}
  Saves = 4
  BCap = 1
  QCap = 1
  Bug = "none"
  MayFail = TRUE
INVARIANT Gapless
INVARIANT Complete
SYMMETRY Perms
CHECK_DEADLOCK FALSE
