SPECIFICATION Spec
CONSTANTS Waiters = {w1, w2, w3}
 Infinite = {w1}
 Rounds = 2
INVARIANT Whole
PROPERTY Refines
