SPECIFICATION Spec
INVARIANTS ComesBack Whole Vectors LastWord FullPeriod
CONSTANTS Base = 3 Digits = 4
CHECK_DEADLOCK FALSE
