SPECIFICATION Spec
CONSTANTS MaxN = 14
INVARIANTS BinomialIs ExtremeIs
CHECK_DEADLOCK FALSE
