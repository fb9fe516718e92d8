SPECIFICATION Spec
INVARIANTS Decoded NoDamage Proceeds
CONSTANTS Sizes <- QuickSizes Flips = {1, 8, 32, 128, 255}
CHECK_DEADLOCK FALSE
