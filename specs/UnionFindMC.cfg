SPECIFICATION Spec
INVARIANT Refines IsPartition RankBound
CONSTANT N = 5
CHECK_DEADLOCK FALSE
