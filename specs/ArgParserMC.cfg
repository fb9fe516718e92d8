SPECIFICATION Spec
CONSTANTS MaxLen = 5  Emit = TRUE
INVARIANTS Agree Partition RawOk
CHECK_DEADLOCK FALSE
