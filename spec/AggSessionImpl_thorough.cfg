SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Waiters = {3}
  MaxOps = 6
  Min = 1
  Bug = ""
INVARIANTS Legal Calm NoLeftover
CHECK_DEADLOCK FALSE
