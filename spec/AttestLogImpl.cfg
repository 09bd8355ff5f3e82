SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Parts <- P
          Lines = 5
          Bug = "none"
INVARIANTS Right
