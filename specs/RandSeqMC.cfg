SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS ValidEnd
CHECK_DEADLOCK FALSE
