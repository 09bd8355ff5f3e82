SPECIFICATION Spec
CONSTANTS
  MaxIts = 2
  MaxKeys = 2
  MaxNext = 3
  CleanUp = TRUE
  CheckClose = TRUE
INVARIANTS Allowed NoLitter Owed
CHECK_DEADLOCK FALSE
