SPECIFICATION CSpec
CONSTANTS
  Tracked = TRUE
  Depth = 6
INVARIANT Fresh
VIEW View
CHECK_DEADLOCK FALSE
