SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxLen = 6
  Alphabet = "mixed"
INVARIANT Exact
CHECK_DEADLOCK FALSE
