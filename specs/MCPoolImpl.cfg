SPECIFICATION Spec
CONSTANTS
  CkFifo = TRUE
  CkStop = TRUE
  CkRoute = "all"
  NW = 2
  Tasks = {1, 2}
  Stoppers = {1}
  Again = {1}
  Waits = FALSE
  Spurious = 1
INVARIANTS PoolInv Sound Clean NoLostWakeup
