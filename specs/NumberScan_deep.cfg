SPECIFICATION Spec
CONSTANTS Alphabet = {48, 57, 45, 43, 46, 101, 120}  MaxLen = 7  Emit = FALSE
INVARIANTS Grammar Nested Values
PROPERTY DeadEnd
CHECK_DEADLOCK FALSE
