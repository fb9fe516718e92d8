SPECIFICATION Spec
CONSTANTS Alphabet = {97, 49, 32, 10}  MaxLen = 4  MaxOps = 1  Emit = TRUE
INVARIANTS Cut Empty LenientSep Refuse LogOk
PROPERTY Forward
VIEW View
CHECK_DEADLOCK FALSE
