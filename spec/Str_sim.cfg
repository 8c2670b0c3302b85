SPECIFICATION SimSpec
CONSTANTS
  L = 15
  CopyKind = "own"
  Refs = TRUE
  RefShort = FALSE
  Loadable = TRUE
  Owns = TRUE
  Erasable = TRUE
  NC = 5
  Depth = 60
CHECK_DEADLOCK FALSE
