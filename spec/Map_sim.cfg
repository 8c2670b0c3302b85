SPECIFICATION SimSpec
CONSTANTS
  NK = 24
  NV = 9
  Depth = 80
  Phase = 25
CHECK_DEADLOCK FALSE
