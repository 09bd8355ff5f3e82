SPECIFICATION Spec
CONSTANTS Threads = {t1, t2, t3}
  Advancer = t1
  Waiters = {w1, w2}
  MaxTime = 1
INVARIANTS Quiescent Accounted
PROPERTIES Refines AllWoken
CHECK_DEADLOCK FALSE
