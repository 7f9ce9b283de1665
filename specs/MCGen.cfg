SPECIFICATION MSpec
CONSTANTS N = 3 NObj = 2 NYield = 2 NThrow = 1
INVARIANTS GInv Refines Owned Single Progress NoneLost
CHECK_DEADLOCK FALSE
