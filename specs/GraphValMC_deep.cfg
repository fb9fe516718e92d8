SPECIFICATION Spec
INVARIANT Agree
CONSTANTS
 N = 4
 MaxEdges = 4
CHECK_DEADLOCK FALSE
