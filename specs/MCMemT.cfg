SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Resources = {1, 2}
  MaxC = 3
  MaxSets = 2
  Sizes = {24}
  Kinds <- KindsQ
INVARIANTS Allowed LayoutOk Held Same Default
CHECK_DEADLOCK FALSE
