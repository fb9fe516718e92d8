SPECIFICATION Spec
INVARIANT Counts
CONSTANT K = 5
CHECK_DEADLOCK FALSE
