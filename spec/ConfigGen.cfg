SPECIFICATION CSpec
CONSTANTS
  Tracked = TRUE
  Depth = 5
INVARIANT Walk
ACTION_CONSTRAINT Alternate
CHECK_DEADLOCK FALSE
