SPECIFICATION BareSpec
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
CONSTANTS
  NN = 0
  Cap = 3
  Root = FALSE
  Bare = TRUE
  Depth = 25
  Slots0 = 0
