SPECIFICATION Spec
CONSTANTS
 MaxLen = 7
 MaxV = 4
INVARIANTS PermRight AdjRight Laws
CHECK_DEADLOCK FALSE
