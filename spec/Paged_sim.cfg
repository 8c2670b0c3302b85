SPECIFICATION SimSpec
CONSTANTS
  NV = 99
  MaxB = 8
  MaxLen = 20
  MaxPage = 32768
  Depth = 60
  Phase = 30
CHECK_DEADLOCK FALSE
