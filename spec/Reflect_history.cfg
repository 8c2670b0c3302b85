SPECIFICATION Spec
CONSTANTS
  Mode = "history"
  Depth = 40
INVARIANT Total
CHECK_DEADLOCK FALSE
