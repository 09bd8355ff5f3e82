SPECIFICATION Spec
CONSTANTS Bug = ""
INVARIANTS Legal Unique Ends
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
