SPECIFICATION Spec
CONSTANTS
  Depth = 1
  Dense = TRUE
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
