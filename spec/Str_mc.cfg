SPECIFICATION Spec
CONSTANTS
  L = 2
  CopyKind = "own"
  Refs = TRUE
  RefShort = FALSE
  Loadable = TRUE
  Owns = TRUE
  Erasable = TRUE
  NC = 2
  Depth = 0
VIEW View
INVARIANT Ownership
PROPERTY Isolation
PROPERTY Frame
CHECK_DEADLOCK FALSE
