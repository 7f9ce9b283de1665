SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxK = 5
  Guard = TRUE
INVARIANTS Allowed AtEnd
