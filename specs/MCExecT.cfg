SPECIFICATION Spec
CONSTANTS
  Nn = 5
  Kinds = {1, 3, 10}
  ReadLate = FALSE
INVARIANTS Untouched Allowed InOrder
CHECK_DEADLOCK FALSE
