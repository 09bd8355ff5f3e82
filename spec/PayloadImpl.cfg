SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  CheckFits = TRUE
  CheckAll = TRUE
INVARIANTS Correct
CHECK_DEADLOCK FALSE
