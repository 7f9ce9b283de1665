SPECIFICATION TSpec
CONSTANTS
  CkFifo = FALSE
  CkStop = FALSE
  CkRoute = "none"
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
