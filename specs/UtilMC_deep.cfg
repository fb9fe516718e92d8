SPECIFICATION Spec
CONSTANTS
 B = 16
 Depth = 12
INVARIANTS RangeRight MorseRight CaseRight FlatRight
CHECK_DEADLOCK FALSE
