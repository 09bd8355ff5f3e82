SPECIFICATION Spec
CONSTANTS N = 4
 Min = 3
 Degree = 3
 Thr = 2
 MaxFaults = 1
 Ring = TRUE
 Async = FALSE
INVARIANTS MasksVanish NeverBoth OnlyAfterInput NoiseOnlyOfDropped ToldOnce CountsAgree AdvancedWithEnough NoStuck InOrder
CHECK_DEADLOCK FALSE
