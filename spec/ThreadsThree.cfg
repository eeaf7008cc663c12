SPECIFICATION Spec
CONSTANTS
  Threads = {1,2,3}
  ProgLen = 1
  Grain = "fine"
  Bug = "none"
INVARIANTS Sequential NeverWrong Untouched NothingLeft
