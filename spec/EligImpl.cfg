SPECIFICATION Spec
CONSTANTS Tasks = {t1, t2}
 Policies = {1, 2, 3}
 Names = {"a", "b"}
 ByName = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
