SPECIFICATION EnumSpec
CONSTANTS
  NV = 99
  MaxLen = 20
  Depth = 4
  Def = 42
PROPERTY ReadOnly
CHECK_DEADLOCK FALSE
