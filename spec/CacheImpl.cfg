SPECIFICATION ISpec
CONSTANTS
  Ids = {"a", "b"}
  Sizes = {1, 2, 3}
  Ages = {0, 3}
  Max = 4
  Puts = 3
  Gets = 1
  Opens = 2
  Faults = 1
INVARIANTS Whole Bounded
PROPERTY Refines
CHECK_DEADLOCK FALSE
