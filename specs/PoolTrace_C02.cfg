SPECIFICATION TSpec
CONSTANTS
  CkFifo = TRUE
  CkStop = FALSE
  CkRoute = "strand"
INVARIANT PoolInv
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
