CONSTANT Max = 2
SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
