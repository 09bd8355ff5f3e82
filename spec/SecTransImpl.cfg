SPECIFICATION Spec
CONSTANTS
  Ckpt = {TRUE, FALSE}
  Valid = {TRUE, FALSE}
  MaxPolls = 2
  CheckLast = TRUE
INVARIANTS Allowed Finished NeverHalf
PROPERTY Quiet
CHECK_DEADLOCK FALSE
