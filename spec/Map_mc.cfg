SPECIFICATION Spec
CONSTANTS
  NK = 3
  NV = 2
  Depth = 0
  Phase = 1
VIEW View
INVARIANT TypeOK
PROPERTY Frame
CHECK_DEADLOCK FALSE
