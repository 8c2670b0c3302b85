SPECIFICATION EnumSpec
CONSTANTS
  NP = 2
  NQ = 1
  M = 2
  V = 1
  MaxW = 1
  Depth = 3
  Random = FALSE
INVARIANTS TypeOK Relative
CHECK_DEADLOCK FALSE
