SPECIFICATION Spec
CONSTANTS MaxLen = 7  Emit = FALSE
INVARIANTS Agree Partition RawOk
CHECK_DEADLOCK FALSE
