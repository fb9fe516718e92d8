SPECIFICATION Spec
INVARIANTS Required Words
CHECK_DEADLOCK FALSE
