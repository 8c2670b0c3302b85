SPECIFICATION Spec
CONSTANTS
  NP = 5
  NQ = 3
  M = 9
  V = 7
  MaxW = 12
  Depth = 60
  Random = TRUE
INVARIANTS TypeOK Relative
CHECK_DEADLOCK FALSE
