SPECIFICATION Spec
CONSTANTS
  N = 1
  Small = FALSE
  ResultUsed = TRUE
  CancelEarly = TRUE
  StopOnRefusal = TRUE
  FinalOnly = TRUE
  LazyStart = TRUE
  Detach = TRUE
INVARIANT Good
CHECK_DEADLOCK TRUE
