SPECIFICATION Spec
INVARIANTS Decoded NoDamage Proceeds
CONSTANTS Sizes <- DeepSizes Flips <- AllFlips
CHECK_DEADLOCK FALSE
