SPECIFICATION Spec
INVARIANTS Function InRanges
CONSTANTS Engines <- DEngines Seeds <- DSeeds MaxLen = 2
CHECK_DEADLOCK FALSE
