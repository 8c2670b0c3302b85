SPECIFICATION EnumSpec
CONSTANTS
  Levels = 2
  NV = 2
  MaxTop = 2
  Depth = 3
PROPERTY Monotone
CHECK_DEADLOCK FALSE
