SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxLen = 6
  Alphabet = "sw"
INVARIANT Exact
CHECK_DEADLOCK FALSE
