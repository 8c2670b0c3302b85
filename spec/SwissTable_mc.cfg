SPECIFICATION Spec
CONSTANTS
  W = 4
  NK = 6
  NV = 1
  MaxCap = 7
  HashKind = "same"
  Depth = 0
  Phase = 1
  Rec = FALSE
VIEW View
INVARIANTS Refines Reachable Budget PowerCap AlwaysRoom
CHECK_DEADLOCK FALSE
