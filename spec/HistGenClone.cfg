CONSTANTS
  Slots = {0, 1}
  Bug = "none"
  Variants <- Shapes
  Raw = FALSE
  Can = {"clone"}
SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
VIEW GView
ACTION_CONSTRAINT Emit
