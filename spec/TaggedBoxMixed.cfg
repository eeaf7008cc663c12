CONSTANTS
  Slots = {0, 1}
  Bug = "none"
  Variants <- Mixed
  Raw = FALSE
  Can = {"clone"}
SPECIFICATION MSpec
VIEW MView
INVARIANTS OwnedAlive NothingLost NeverWrong HeapIsReachable Separate TagIsPosition TagInRange
PROPERTY Refinement
CHECK_DEADLOCK FALSE
