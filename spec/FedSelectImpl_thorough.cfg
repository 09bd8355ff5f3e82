SPECIFICATION Spec
CONSTANTS
  MaxIts = 3
  MaxKeys = 2
  MaxNext = 4
  CleanUp = TRUE
  CheckClose = TRUE
INVARIANTS Allowed NoLitter Owed
CHECK_DEADLOCK FALSE
