SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Keys = {"a", "b"}
          MaxSources = 1
          Bug = "none"
INVARIANTS Right Together
