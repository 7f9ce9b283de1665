SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxK = 3
  Guard = TRUE
INVARIANTS Allowed AtEnd
