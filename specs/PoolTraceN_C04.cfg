SPECIFICATION TSpec
CONSTANTS
  CkFifo = FALSE
  CkStop = FALSE
  CkRoute = "all"
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
