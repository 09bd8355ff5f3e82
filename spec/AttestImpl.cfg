SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Calls = 2
          Bug = "none"
INVARIANTS Right
