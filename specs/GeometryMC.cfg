SPECIFICATION Spec
CONSTANTS
 W = 3
 H = 2
 MaxN = 5
INVARIANTS SweepRight Turning Laws
CHECK_DEADLOCK FALSE
