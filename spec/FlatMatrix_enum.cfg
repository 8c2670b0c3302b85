SPECIFICATION EnumSpec
CONSTANTS
  NV = 1
  MaxDim = 2
  Depth = 3
INVARIANTS Sized Distinct
CHECK_DEADLOCK FALSE
