SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxLen = 6
  Alphabet = "fence"
INVARIANT Exact
CHECK_DEADLOCK FALSE
