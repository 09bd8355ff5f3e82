SPECIFICATION Spec
CONSTANTS Max = 2
 MaxLen = 3
INVARIANTS Exact OnlyGood
CHECK_DEADLOCK FALSE
