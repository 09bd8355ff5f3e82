SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Keys = {"a", "b", "c"}
          MaxSources = 2
          Bug = "none"
INVARIANTS Right Together
