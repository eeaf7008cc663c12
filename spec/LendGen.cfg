CONSTANTS
    LendBug = "none"
    MaxOps = 5
SPECIFICATION Spec
INVARIANTS Sound Complete Never Chain
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
