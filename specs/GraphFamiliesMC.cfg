SPECIFICATION Spec
INVARIANT Facts Cayley
CONSTANT K = 4
CHECK_DEADLOCK FALSE
