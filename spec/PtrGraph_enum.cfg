SPECIFICATION EnumSpec
INVARIANTS TypeOK Forest
CHECK_DEADLOCK FALSE
CONSTANTS
  NN = 2
  Cap = 1
  Root = FALSE
  Bare = FALSE
  Depth = 90
  Slots0 = 5
