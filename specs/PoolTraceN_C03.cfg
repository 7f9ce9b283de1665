SPECIFICATION TSpec
CONSTANTS
  CkFifo = FALSE
  CkStop = TRUE
  CkRoute = "none"
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
