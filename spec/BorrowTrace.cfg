CONSTANT Bug = "none"
SPECIFICATION TraceSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT LendBug = "none"
