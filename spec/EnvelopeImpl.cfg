SPECIFICATION Spec
CONSTANTS
  MaxSeals = 2
  MaxWraps = 3
  FreshKey = TRUE
  BindAad = TRUE
  BindKeyAad = TRUE
  BindEnc = TRUE
INVARIANTS Allowed
CHECK_DEADLOCK FALSE
