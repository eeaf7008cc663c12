CONSTANTS
  Slots = {0, 1, 2, 3}
  Bug = "none"
  Variants <- Shapes1
  Raw = TRUE
  Can = {}
SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
INVARIANT Walk
