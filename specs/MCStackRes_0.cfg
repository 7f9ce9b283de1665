SPECIFICATION Spec
CONSTANTS
  Buf = 0
  Lens = {1, 2, 5}
  MaxChunks = 4
  MaxSteps = 8
INVARIANTS Disjoint Inside Accounted
PROPERTIES Refines
CHECK_DEADLOCK FALSE
