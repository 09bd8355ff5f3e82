SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Threads = {1, 2}
          MaxTime = 4
          MaxOps = 6
          Slack = 0
          Bug = "none"
INVARIANTS Right
