SPECIFICATION Spec
CONSTANTS MaxRuns = 4  Emit = FALSE
INVARIANTS Counter HandOver NoGhost Asked
PROPERTY OnlyAsked
CHECK_DEADLOCK FALSE
