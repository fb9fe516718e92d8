SPECIFICATION Spec
CONSTANTS
 W = 3
 H = 3
 MaxN = 5
INVARIANTS SweepRight Turning Laws
CHECK_DEADLOCK FALSE
