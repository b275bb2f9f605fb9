SPECIFICATION Spec
CONSTANTS
  Clients = {c1, c2}
  Readers = {r}
  Streams = {s1, s2}
  Types = {a, b}
  Saves = 2
  MaxBatch = 2
  Bug = "none"
INVARIANT Inv
PROPERTY Refines
SYMMETRY Perms
CHECK_DEADLOCK FALSE
