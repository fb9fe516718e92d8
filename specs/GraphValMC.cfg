SPECIFICATION Spec
INVARIANT Agree
CONSTANTS
 N = 3
 MaxEdges = 4
CHECK_DEADLOCK FALSE
