SPECIFICATION SimSpec
INVARIANTS TypeOK Orders
CHECK_DEADLOCK FALSE
CONSTANTS
  NV = 5
  Width = 3
  MaxChain = 5
  Fails = TRUE
  Images = FALSE
  Depth = 80
  Parts = {"o", "p", "t"}
