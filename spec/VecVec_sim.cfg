SPECIFICATION SimSpec
CONSTANTS
  NV = 9
  MaxB = 8
  MaxLen = 9
  Depth = 45
CHECK_DEADLOCK FALSE
