SPECIFICATION EnumSpec
CONSTANTS
  NK = 2
  NV = 1
  Depth = 4
  Phase = 1
CHECK_DEADLOCK FALSE
