SPECIFICATION Spec
CONSTANTS MaxLen = 2
INVARIANTS Cut One EmptyJ Length Space
CHECK_DEADLOCK FALSE
