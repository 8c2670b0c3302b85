SPECIFICATION SimSpec
CONSTANTS
  NV = 9
  MaxKeys = 9
  MaxLen = 5
  Depth = 60
CHECK_DEADLOCK FALSE
