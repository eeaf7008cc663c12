CONSTANTS
  Slots = {0, 1, 2}
  Bug = "none"
  Variants <- Copyable
  Raw = FALSE
  Can = {"clone", "copy"}
SPECIFICATION MSpec
VIEW MView
INVARIANTS OwnedAlive NothingLost NeverWrong HeapIsReachable Separate TagIsPosition TagInRange
PROPERTY Refinement
CHECK_DEADLOCK FALSE
