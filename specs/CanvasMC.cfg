SPECIFICATION Spec
INVARIANTS Filled Near Ends
CONSTANTS FW = 3 FH = 3 Span = 7
CHECK_DEADLOCK FALSE
