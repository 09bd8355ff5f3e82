SPECIFICATION Spec
CONSTANTS
  Kindset = {"simple", "confidential", "secure", "none"}
  Conf = TRUE
  MaxPolls = 2
  Rich = TRUE
  Many = 1
INVARIANTS Allowed WindowRight Exclusive
CHECK_DEADLOCK FALSE
