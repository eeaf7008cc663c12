SPECIFICATION TSpec
CONSTANTS
  Slots = {0, 1, 2, 3}
  Bug = "none"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
