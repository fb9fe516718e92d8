SPECIFICATION Spec
CONSTANTS MaxOps = 5  Emit = TRUE
INVARIANTS InForce Reach Explicit Separate
PROPERTY Frozen
CHECK_DEADLOCK FALSE
