SPECIFICATION McSpec
VIEW McView
INVARIANTS TypeOK Orders
CHECK_DEADLOCK FALSE
CONSTANTS
  NV = 1
  Width = 3
  MaxChain = 2
  Fails = TRUE
  Images = FALSE
  Depth = 0
  Parts = {"o", "p", "t"}
