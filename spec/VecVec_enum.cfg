SPECIFICATION EnumSpec
CONSTANTS
  NV = 3
  MaxB = 6
  MaxLen = 8
  Depth = 4
CHECK_DEADLOCK FALSE
