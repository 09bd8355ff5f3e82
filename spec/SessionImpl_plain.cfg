SPECIFICATION Spec
CONSTANTS
  Kindset = {"simple", "secure", "confidential"}
  Conf = FALSE
  MaxPolls = 1
  Rich = FALSE
  Many = 1
INVARIANTS Allowed WindowRight Exclusive
CHECK_DEADLOCK FALSE
