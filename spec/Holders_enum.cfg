SPECIFICATION EnumSpec
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
CONSTANTS
  NV = 1
  Width = 3
  MaxChain = 2
  Fails = TRUE
  Images = FALSE
  Depth = 3
  Parts = {"o"}
