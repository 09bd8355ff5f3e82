SPECIFICATION Spec
CONSTANTS
  Kindset = {"simple"}
  Conf = TRUE
  MaxPolls = 0
  Rich = FALSE
  Many = 2
INVARIANTS Allowed WindowRight Exclusive
CHECK_DEADLOCK FALSE
