SPECIFICATION Spec
CONSTANTS
  Depth = 40
  Simulate = TRUE
  Kinds = {"vector"}
  Most = 1
INVARIANT Sane
CHECK_DEADLOCK FALSE
