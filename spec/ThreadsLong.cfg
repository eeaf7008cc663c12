SPECIFICATION Spec
CONSTANTS
  Threads = {1,2}
  ProgLen = 2
  Grain = "fine"
  Bug = "none"
INVARIANTS Sequential NeverWrong Untouched NothingLeft
