SPECIFICATION Spec
CONSTANTS MaxOps = 7  Emit = FALSE
INVARIANTS InForce Reach Explicit Separate
PROPERTY Frozen
CHECK_DEADLOCK FALSE
