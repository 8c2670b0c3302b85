SPECIFICATION Spec
CONSTANTS
  Depth = 24
INVARIANT Sound
CHECK_DEADLOCK FALSE
