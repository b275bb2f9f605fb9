SPECIFICATION Spec
CONSTANTS
  Savers = {a, b}
  Readers = {r}
  Subjects = {x}
  Calls = 4
  Batch = 2
  Bug = "none"
INVARIANTS Sealed Readable Shredded Honest
CHECK_DEADLOCK FALSE
