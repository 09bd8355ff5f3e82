SPECIFICATION Spec
CONSTANTS Pool = {p1, p2}
 Submitters <- Sub2
 Script <- Scr1
 Nest <- Nest1
 Waiter = "i"
INVARIANT Complete IdleSound
PROPERTY Refines
