SPECIFICATION Spec
CONSTANTS
  CkFifo = TRUE
  CkStop = TRUE
  CkRoute = "all"
  NW = 2
  Tasks = {1}
  Stoppers = {1, 2}
  Again = {1}
  Waits = TRUE
  Spurious = 0
INVARIANTS PoolInv Sound Clean NoLostWakeup
