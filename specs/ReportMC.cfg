SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Right
CHECK_DEADLOCK FALSE
