SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  ProgLen = 1
  Grain = "coarse"
  Bug = "none"
INVARIANTS Sequential NeverWrong Untouched NothingLeft Emit
