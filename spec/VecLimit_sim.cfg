SPECIFICATION Spec
CONSTANTS
  Max = 127
  Depth = 40
INVARIANT InRange
CHECK_DEADLOCK FALSE
