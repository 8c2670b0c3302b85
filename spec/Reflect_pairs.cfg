SPECIFICATION Spec
CONSTANTS
  Mode = "pairs"
  Depth = 2
INVARIANT Total
CHECK_DEADLOCK FALSE
