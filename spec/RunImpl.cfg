SPECIFICATION Spec
CONSTANTS FlagSet = {"lw", "flat"}
          Kinds = {"tf", "eq", "odd", "noeq"}
          MaxMany = 2
          Faults = 2
          Bug = "none"
INVARIANTS Right Together
CHECK_DEADLOCK FALSE
