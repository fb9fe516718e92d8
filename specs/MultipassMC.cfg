SPECIFICATION Spec
CONSTANTS MaxRuns = 3  Emit = TRUE
INVARIANTS Counter HandOver NoGhost Asked
PROPERTY OnlyAsked
CHECK_DEADLOCK FALSE
