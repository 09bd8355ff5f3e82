SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Parts <- P
          Lines = 7
          Bug = "none"
INVARIANTS Right
