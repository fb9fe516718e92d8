SPECIFICATION Spec
CONSTANTS N = 4
INVARIANTS ValidEnd
CHECK_DEADLOCK FALSE
