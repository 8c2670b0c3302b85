SPECIFICATION SimSpec
CONSTANTS
  NV = 6
  MaxLen = 40
  Depth = 60
  Phase = 20
CHECK_DEADLOCK FALSE
