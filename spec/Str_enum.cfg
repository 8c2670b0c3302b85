SPECIFICATION EnumSpec
CONSTANTS
  L = 15
  CopyKind = "own"
  Refs = TRUE
  RefShort = FALSE
  Loadable = TRUE
  Owns = TRUE
  Erasable = TRUE
  NC = 5
  Depth = 3
CHECK_DEADLOCK FALSE
