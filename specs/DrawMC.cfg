SPECIFICATION Spec
CONSTANTS MaxW = 7
INVARIANTS Uniform Terminates Shortcut FairBit
CHECK_DEADLOCK FALSE
