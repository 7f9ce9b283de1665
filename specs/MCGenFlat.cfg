SPECIFICATION MSpec
CONSTANTS N = 3 NObj = 2 NYield = 3 NThrow = 1
  Elem <- NoElem
INVARIANTS GInv Refines Owned Single Progress NoneLost
CHECK_DEADLOCK FALSE
