SPECIFICATION Spec
CONSTANTS
  NV = 2
  MaxB = 2
  MaxLen = 2
  Depth = 0
VIEW View
PROPERTY Frame
CHECK_DEADLOCK FALSE
