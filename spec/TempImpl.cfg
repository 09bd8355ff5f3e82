SPECIFICATION ISpec
CONSTANTS
  Names = {"x", "y", "z"}
  Steps = 9
  Faults = 2
INVARIANT Confined
PROPERTY Refines
CHECK_DEADLOCK FALSE
