SPECIFICATION ISpec
CONSTANTS
  Runs = 3
  Ttl = 3
  MaxSize = 2
  MaxNow = 5
  MaxCommits = 3
  Faults = 2
  ByFlag = FALSE
INVARIANTS Proper OnceEach InOrder
PROPERTY Sees
CHECK_DEADLOCK FALSE
