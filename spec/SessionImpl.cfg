SPECIFICATION Spec
CONSTANTS
  Kindset = {"simple", "confidential"}
  Conf = TRUE
  MaxPolls = 1
  Rich = FALSE
  Many = 1
INVARIANTS Allowed WindowRight Exclusive
CHECK_DEADLOCK FALSE
