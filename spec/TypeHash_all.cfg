SPECIFICATION SpecAll
CONSTANTS
  Depth = 24
INVARIANT Sound
CHECK_DEADLOCK FALSE
