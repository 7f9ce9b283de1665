SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxLen = 5
  Alphabet = "mixed"
INVARIANT Exact
CHECK_DEADLOCK FALSE
