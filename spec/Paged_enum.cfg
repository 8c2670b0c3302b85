SPECIFICATION EnumSpec
CONSTANTS
  NV = 9
  MaxB = 4
  MaxLen = 8
  MaxPage = 32768
  Depth = 4
  Phase = 20
PROPERTY Frame
CHECK_DEADLOCK FALSE
