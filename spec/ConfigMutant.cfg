SPECIFICATION CSpec
CONSTANTS
  Tracked = FALSE
  Depth = 6
INVARIANT Fresh
VIEW View
CHECK_DEADLOCK FALSE
