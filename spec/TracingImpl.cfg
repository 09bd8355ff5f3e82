SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Recs = {"r1", "r2"}
  MaxOps = 5
  Local = FALSE
  Bug = ""
INVARIANTS Legal Exact
CHECK_DEADLOCK FALSE
