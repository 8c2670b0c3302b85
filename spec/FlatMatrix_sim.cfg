SPECIFICATION SimSpec
CONSTANTS
  NV = 9
  MaxDim = 5
  Depth = 60
CHECK_DEADLOCK FALSE
