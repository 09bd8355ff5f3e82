SPECIFICATION Spec
CONSTANTS FlagSet = {"lw", "flat", "notf"}
          Kinds = {"tf", "ck", "eq", "odd", "noeq", "void", "junk", "lost"}
          MaxMany = 2
          Faults = 3
          Bug = "none"
INVARIANTS Right Together
CHECK_DEADLOCK FALSE
