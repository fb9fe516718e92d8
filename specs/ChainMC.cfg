SPECIFICATION Spec
CONSTANTS
  Alphabet = {48, 49, 50, 45, 32, 10}
  MaxLen = 6
  Kinds = {"ints", "big", "pairs", "perm", "simple", "tree", "dag"}
INVARIANTS OneText Again
CHECK_DEADLOCK FALSE
