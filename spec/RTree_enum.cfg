SPECIFICATION EnumSpec
CONSTANTS
  C = 9
  NId = 5
  Depth = 8
  Phase = 20
  MaxN = 20
  Full = TRUE
  Pattern = "mix"
INVARIANT Sorted
CHECK_DEADLOCK FALSE
