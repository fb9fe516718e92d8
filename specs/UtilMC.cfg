SPECIFICATION Spec
CONSTANTS
 B = 7
 Depth = 9
INVARIANTS RangeRight MorseRight CaseRight FlatRight
CHECK_DEADLOCK FALSE
