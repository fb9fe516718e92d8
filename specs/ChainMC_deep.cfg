SPECIFICATION Spec
CONSTANTS
  Alphabet = {48, 49, 50, 32, 10}
  MaxLen = 8
  Kinds = {"ints", "pairs", "perm", "tree", "dag"}
INVARIANTS OneText Again
CHECK_DEADLOCK FALSE
