SPECIFICATION Spec
CONSTANTS Pool = {p1, p2, p3}
 Submitters <- Sub2
 Script <- Scr2
 Nest <- Nest2
 Waiter = "i"
INVARIANT Complete IdleSound
PROPERTY Refines
