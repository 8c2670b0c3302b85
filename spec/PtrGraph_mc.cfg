SPECIFICATION McSpec
VIEW McView
INVARIANTS TypeOK Forest
CHECK_DEADLOCK FALSE
CONSTANTS
  NN = 3
  Cap = 1
  Root = FALSE
  Bare = FALSE
  Depth = 6
  Slots0 = 0
