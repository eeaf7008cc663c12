SPECIFICATION Spec
CONSTANTS
  N = 6
  TagBits = 5
  WMin = 2
  WMax = 5
INVARIANTS RoundTrip AnyWord OnlyInRange Injective
PROPERTIES RefusedKeeps RepackAccepted
CHECK_DEADLOCK FALSE
