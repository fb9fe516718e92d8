SPECIFICATION Spec
CONSTANTS MaxW = 9
INVARIANTS Uniform Terminates Shortcut FairBit
CHECK_DEADLOCK FALSE
