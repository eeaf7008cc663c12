SPECIFICATION Spec
INVARIANTS Own Closed Reach Inside Anywhere
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANT Bug = "none"
