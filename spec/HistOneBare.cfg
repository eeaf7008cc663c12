CONSTANTS
  Slots = {0}
  Bug = "none"
  Variants <- Shapes
  Raw = FALSE
  Can = {}
SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
VIEW GView
ACTION_CONSTRAINT Emit
