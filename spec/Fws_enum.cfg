SPECIFICATION EnumSpec
CONSTANTS
  NV = 2
  MaxKeys = 3
  MaxLen = 2
  Depth = 7
CHECK_DEADLOCK FALSE
