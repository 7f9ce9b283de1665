SPECIFICATION TSpec
CONSTANTS
  CkFifo = FALSE
  CkStop = FALSE
  CkRoute = "all"
INVARIANT PoolInv
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
