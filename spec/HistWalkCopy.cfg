CONSTANTS
  Slots = {0, 1, 2, 3}
  Bug = "none"
  Variants <- Shapes
  Raw = FALSE
  Can = {"clone", "copy"}
SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
INVARIANT Walk
