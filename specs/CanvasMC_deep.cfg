SPECIFICATION Spec
INVARIANTS Filled Near Ends
CONSTANTS FW = 4 FH = 3 Span = 16
CHECK_DEADLOCK FALSE
