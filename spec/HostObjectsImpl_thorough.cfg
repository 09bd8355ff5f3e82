SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
          MaxRegs = 3
          MaxOps = 6
          Bug = "none"
INVARIANTS Right Lives
