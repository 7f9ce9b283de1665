SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxLen = 6
  Alphabet = "lock"
INVARIANT Exact
CHECK_DEADLOCK FALSE
