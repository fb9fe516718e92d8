SPECIFICATION Spec
CONSTANTS MaxLen = 6
INVARIANTS Right
CHECK_DEADLOCK FALSE
