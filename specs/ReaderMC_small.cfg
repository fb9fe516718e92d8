SPECIFICATION Spec
CONSTANTS Alphabet = {97, 49, 32, 10}  MaxLen = 3  MaxOps = 2  Emit = FALSE
INVARIANTS Cut Empty LenientSep Refuse LogOk
PROPERTY Forward
VIEW View
CHECK_DEADLOCK FALSE
