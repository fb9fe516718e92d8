SPECIFICATION Spec
INVARIANTS JumpIsLast ActsLikeSteps
CONSTANTS Basis <- AllBits Direct = 10
CHECK_DEADLOCK FALSE
