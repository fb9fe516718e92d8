SPECIFICATION Spec
INVARIANTS Function InRanges
CONSTANTS Engines <- QEngines Seeds <- QSeeds MaxLen = 2
CHECK_DEADLOCK FALSE
