SPECIFICATION TSpec
CONSTANTS
  Slots = {0, 1, 2, 3, 4, 5, 6, 7}
  Bug = "none"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
