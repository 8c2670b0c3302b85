SPECIFICATION SimSpec
INVARIANTS TypeOK Forest
CHECK_DEADLOCK FALSE
CONSTANTS
  NN = 6
  Cap = 3
  Root = FALSE
  Bare = FALSE
  Depth = 90
  Slots0 = 0
