SPECIFICATION Spec
CONSTANTS
  MaxSeals = 2
  MaxWraps = 4
  FreshKey = TRUE
  BindAad = TRUE
  BindKeyAad = TRUE
  BindEnc = TRUE
INVARIANTS Allowed
CHECK_DEADLOCK FALSE
