SPECIFICATION Spec
INVARIANT Refines IsPartition RankBound
CONSTANT N = 6
CHECK_DEADLOCK FALSE
