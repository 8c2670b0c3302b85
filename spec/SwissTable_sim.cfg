SPECIFICATION SimSpec
CONSTANTS
  W = 8
  NK = 26
  NV = 9
  MaxCap = 127
  HashKind = "same"
  Depth = 100
  Phase = 40
  Rec = TRUE
INVARIANTS Refines Reachable Budget
CHECK_DEADLOCK FALSE
