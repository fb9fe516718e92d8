SPECIFICATION Spec
CONSTANTS MaxN = 7
INVARIANTS BinomialIs ExtremeIs
CHECK_DEADLOCK FALSE
