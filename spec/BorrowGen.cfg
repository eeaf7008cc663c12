CONSTANT Bug = "none"
SPECIFICATION Spec
VIEW View
INVARIANT Good
PROPERTY Once
PROPERTY Tied
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
