SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Nodes = {1, 2, 3}
  MaxCalls = 3
INVARIANTS Refines PopRefines LFInv AllReturn
CHECK_DEADLOCK FALSE
