SPECIFICATION Spec
CONSTANTS Alphabet = {97, 1, 32, 10, 9}  MaxLen = 6  Emit = FALSE
INVARIANTS StrictLayout LenientTokens TypeOK
PROPERTY Final
VIEW View
CHECK_DEADLOCK FALSE
