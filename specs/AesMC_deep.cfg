SPECIFICATION Spec
INVARIANTS ComesBack Whole Vectors LastWord FullPeriod
CONSTANTS Base = 4 Digits = 5
CHECK_DEADLOCK FALSE
