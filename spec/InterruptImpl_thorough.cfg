SPECIFICATION Spec
CONSTANTS Callers = {t1, t2, t3}
 PerCaller = 1
INVARIANT ExitOk IdleOk
PROPERTY Refines
CHECK_DEADLOCK FALSE
