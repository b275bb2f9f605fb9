SPECIFICATION Spec
CONSTANTS
  Callers = {c1, c2, c3}
  Subjects = {x, y}
  Keys = {k, m}
  Calls = 7
  Bug = "none"
  Warm = TRUE
INVARIANT Inv
SYMMETRY Perms
CHECK_DEADLOCK FALSE
