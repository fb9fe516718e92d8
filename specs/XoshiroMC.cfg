SPECIFICATION Spec
INVARIANTS JumpIsLast ActsLikeSteps
CONSTANTS Basis = {0, 1, 17, 46, 63, 64, 65, 100, 127, 128, 147, 191, 192, 210, 255} Direct = 8
CHECK_DEADLOCK FALSE
