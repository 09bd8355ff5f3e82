SPECIFICATION Spec
CONSTANTS Max = 2
 MaxLen = 2
INVARIANTS Exact OnlyGood
CHECK_DEADLOCK FALSE
