SPECIFICATION TSpec
CONSTANTS
  N = 64
  TagBits = 16
  WMin = 48
  WMax = 63
INVARIANTS RoundTrip OnlyInRange
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
