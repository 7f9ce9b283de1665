SPECIFICATION TSpec
CONSTANTS
  CkFifo = TRUE
  CkStop = FALSE
  CkRoute = "strand"
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
