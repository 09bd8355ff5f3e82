SPECIFICATION Spec
CONSTANTS
  N = 3
  Small = TRUE
  ResultUsed = TRUE
  CancelEarly = TRUE
  StopOnRefusal = TRUE
  FinalOnly = TRUE
  LazyStart = TRUE
  Detach = TRUE
INVARIANT Good
CHECK_DEADLOCK TRUE
