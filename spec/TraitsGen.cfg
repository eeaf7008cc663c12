SPECIFICATION Spec
INVARIANT NoMore
CHECK_DEADLOCK FALSE
