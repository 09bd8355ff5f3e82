SPECIFICATION Spec
CONSTANTS Threads = {t1, t2}
  Advancer = t1
  Waiters = {w1, w2, w3}
  MaxTime = 2
INVARIANTS Quiescent Accounted
PROPERTIES Refines
CHECK_DEADLOCK FALSE
