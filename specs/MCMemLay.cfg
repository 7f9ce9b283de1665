SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  Resources = {1, 2}
  MaxC = 2
  MaxSets = 0
  Sizes <- SizesAll
  Kinds <- KindsAll
INVARIANTS Allowed LayoutOk Held Same Default
CHECK_DEADLOCK FALSE
