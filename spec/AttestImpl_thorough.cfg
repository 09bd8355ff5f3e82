SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Calls = 3
          Bug = "none"
INVARIANTS Right
