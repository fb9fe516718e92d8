SPECIFICATION Spec
CONSTANTS
 MaxM = 12
 MaxN = 150
 MaxW = 20
INVARIANTS LadderInv AddInv SieveDone Arith
CHECK_DEADLOCK FALSE
