SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxLen = 5
  Alphabet = "sw"
INVARIANT Exact
CHECK_DEADLOCK FALSE
