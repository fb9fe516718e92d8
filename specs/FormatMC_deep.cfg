SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Cut One EmptyJ Length Space
CHECK_DEADLOCK FALSE
