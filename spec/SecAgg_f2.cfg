SPECIFICATION Spec
CONSTANTS N = 3
 Min = 2
 Degree = 3
 Thr = 2
 MaxFaults = 2
 Ring = FALSE
 Async = TRUE
INVARIANTS MasksVanish NeverBoth OnlyAfterInput NoiseOnlyOfDropped ToldOnce CountsAgree AdvancedWithEnough NoStuck InOrder
CHECK_DEADLOCK FALSE
