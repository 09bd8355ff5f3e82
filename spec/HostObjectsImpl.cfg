SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
          MaxRegs = 2
          MaxOps = 5
          Bug = "none"
INVARIANTS Right Lives
