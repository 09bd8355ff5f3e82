SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  MaxTasks = 2
  MaxCheckins = 2
  Bug = ""
INVARIANTS Legal Clean
CHECK_DEADLOCK FALSE
