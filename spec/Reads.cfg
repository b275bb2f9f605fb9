SPECIFICATION Spec
CONSTANTS
  Readers = {r1, r2}
  Writers = {w1, w2}
  Writes = 3
  Bug = "none"
INVARIANT Inv
PROPERTY WritersGetIn
PROPERTY CloseEnds
PROPERTY ReadsGoOn
CHECK_DEADLOCK FALSE
