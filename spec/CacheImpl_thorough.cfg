SPECIFICATION ISpec
CONSTANTS
  Ids = {"a", "b"}
  Sizes = {1, 2}
  Ages = {0, 3}
  Max = 4
  Puts = 3
  Gets = 1
  Opens = 3
  Faults = 2
INVARIANTS Whole Bounded
PROPERTY Refines
CHECK_DEADLOCK FALSE
