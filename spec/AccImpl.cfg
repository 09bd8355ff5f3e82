SPECIFICATION Spec
CONSTANTS Tasks = {1, 2}
 Observers = {1, 2}
 MayCancel = TRUE
 Pool = 2
INVARIANT OnceEach IdleSound EndOk
PROPERTY Refines
