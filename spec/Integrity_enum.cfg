SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Types = {1, 2, 3}
  Simulate = FALSE
INVARIANT Sound
CHECK_DEADLOCK FALSE
