SPECIFICATION Spec
CONSTANTS
  MaxLen = 8
  CheckFits = TRUE
  CheckAll = TRUE
INVARIANTS Correct
CHECK_DEADLOCK FALSE
