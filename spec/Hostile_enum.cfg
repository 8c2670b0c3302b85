SPECIFICATION Spec
CONSTANTS
  Depth = 1
  Simulate = FALSE
  Kinds = {"vector"}
  Most = 2
INVARIANT Sane
CHECK_DEADLOCK FALSE
