SPECIFICATION SimSpec
CONSTANTS
  NV = 99
  MaxLen = 60
  Depth = 50
  Def = 42
CHECK_DEADLOCK FALSE
