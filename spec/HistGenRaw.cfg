CONSTANTS
  Slots = {0, 1}
  Bug = "none"
  Variants <- Shapes1
  Raw = TRUE
  Can = {}
SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
VIEW GView
ACTION_CONSTRAINT Emit
