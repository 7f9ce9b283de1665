SPECIFICATION TSpec
CONSTANTS
  CkFifo = FALSE
  CkStop = FALSE
  CkRoute = "none"
INVARIANT PoolInv
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
