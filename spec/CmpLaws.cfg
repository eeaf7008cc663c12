CONSTANT Max = 1
SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
