SPECIFICATION Spec
CONSTANTS
  Callers = {c1, c2}
  Subjects = {x, y}
  Keys = {k, m}
  Calls = 4
  Bug = "overwrite"
  Warm = TRUE
INVARIANT Inv
SYMMETRY Perms
CHECK_DEADLOCK FALSE
