SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  ProgLen = 3
  Grain = "coarse"
  Bug = "none"
INVARIANTS Sequential NeverWrong Untouched NothingLeft Emit
