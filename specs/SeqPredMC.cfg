SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
 MaxV = 4
INVARIANTS PermRight AdjRight Laws
CHECK_DEADLOCK FALSE
