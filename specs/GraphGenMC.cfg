SPECIFICATION Spec
INVARIANT Ok
PROPERTY LastEdit
VIEW View
CONSTANTS
 N = 3
 MaxLen = 6
 Emit = TRUE
CHECK_DEADLOCK FALSE
