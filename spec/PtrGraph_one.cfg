SPECIFICATION OneSpec
INVARIANTS TypeOK Forest
CHECK_DEADLOCK FALSE
CONSTANTS
  NN = 2
  Cap = 2
  Root = FALSE
  Bare = FALSE
  Depth = 90
  Slots0 = 0
