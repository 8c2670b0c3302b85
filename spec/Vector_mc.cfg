SPECIFICATION Spec
CONSTANTS
  NV = 2
  MaxLen = 3
  Depth = 0
  Phase = 1
VIEW View
INVARIANT TypeOK
PROPERTY SizeLaw
CHECK_DEADLOCK FALSE
