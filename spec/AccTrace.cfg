SPECIFICATION TSpec
CONSTRAINT Constr
POSTCONDITION Post
CHECK_DEADLOCK FALSE
