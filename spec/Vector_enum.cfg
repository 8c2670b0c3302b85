SPECIFICATION EnumSpec
CONSTANTS
  NV = 2
  MaxLen = 6
  Depth = 3
  Phase = 1
CHECK_DEADLOCK FALSE
