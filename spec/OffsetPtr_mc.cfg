SPECIFICATION Spec
CONSTANTS
  NP = 2
  NQ = 2
  M = 2
  V = 1
  MaxW = 2
  Depth = 1000
  Random = FALSE
INVARIANTS TypeOK Relative
VIEW Abs
CHECK_DEADLOCK FALSE
