SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Threads = {1, 2}
          MaxTime = 3
          MaxOps = 5
          Slack = 0
          Bug = "none"
INVARIANTS Right
