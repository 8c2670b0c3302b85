SPECIFICATION SimSpec
CONSTANTS
  C = 9
  NId = 6
  Depth = 60
  Phase = 30
  MaxN = 30
  Full = TRUE
  Pattern = "mix"
INVARIANT Sorted
CHECK_DEADLOCK FALSE
