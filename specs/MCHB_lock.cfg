SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxLen = 5
  Alphabet = "lock"
INVARIANT Exact
CHECK_DEADLOCK FALSE
