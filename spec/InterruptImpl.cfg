SPECIFICATION Spec
CONSTANTS Callers = {t1, t2}
 PerCaller = 2
INVARIANT ExitOk IdleOk
PROPERTY Refines
CHECK_DEADLOCK FALSE
