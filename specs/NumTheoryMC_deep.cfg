SPECIFICATION Spec
CONSTANTS
 MaxM = 30
 MaxN = 1200
 MaxW = 60
INVARIANTS LadderInv AddInv SieveDone Arith
CHECK_DEADLOCK FALSE
