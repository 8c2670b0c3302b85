SPECIFICATION SimSpec
CONSTANTS
  Levels = 2
  NV = 9
  MaxTop = 7
  Depth = 25
CHECK_DEADLOCK FALSE
