SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxLen = 5
  Alphabet = "fence"
INVARIANT Exact
CHECK_DEADLOCK FALSE
