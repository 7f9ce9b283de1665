SPECIFICATION Spec
CONSTANTS
  CkFifo = TRUE
  CkStop = TRUE
  CkRoute = "all"
  Workers = {1, 2}
  Tasks = {1, 2}
  MaxHands = 1
  Stoppers = {1}
  KeyOf <- StdKey
INVARIANTS PoolInv Props
PROPERTY NeverLost
CHECK_DEADLOCK FALSE
