SPECIFICATION Spec
CONSTANTS
  Depth = 40
  Types = {1, 2, 3, 4}
  Simulate = TRUE
INVARIANT Sound
CHECK_DEADLOCK FALSE
