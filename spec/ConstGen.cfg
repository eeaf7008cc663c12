CONSTANTS
    Bug = "none"
    N = 5
    WMin = 3
    WMax = 4
    MaxLen = 1
SPECIFICATION Spec
INVARIANTS NothingRefusedRuns OnlyMisfits Same Apart
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
