SPECIFICATION Spec
CONSTANTS
  CheckArray = TRUE
  CheckThird = TRUE
  CheckKey = TRUE
INVARIANTS Correct NoCrash
CHECK_DEADLOCK FALSE
