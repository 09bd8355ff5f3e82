SPECIFICATION Spec
CONSTANTS Tasks = {"a", "b", "c"}
 Horizon = 8
 MaxRuns = 3
INVARIANT Apart
CHECK_DEADLOCK FALSE
