SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  MaxOps = 5
  Bug = ""
INVARIANTS Legal Exact
CHECK_DEADLOCK FALSE
