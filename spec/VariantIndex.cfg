SPECIFICATION Spec
CONSTANTS
  Depth = 3
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
