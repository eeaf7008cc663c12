CONSTANTS
  Slots = {0, 1, 2}
  Bug = "none"
  Variants <- Payloads
  Raw = TRUE
  Can = {}
SPECIFICATION MSpec
VIEW MView
INVARIANTS OwnedAlive NothingLost NeverWrong HeapIsReachable Separate TagIsPosition TagInRange
PROPERTY Refinement
CHECK_DEADLOCK FALSE
