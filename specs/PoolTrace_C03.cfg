SPECIFICATION TSpec
CONSTANTS
  CkFifo = FALSE
  CkStop = TRUE
  CkRoute = "none"
INVARIANT PoolInv
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
