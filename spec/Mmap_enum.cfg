SPECIFICATION EnumSpec
CONSTANTS
  Depth = 5
  Sizes = {0}
INVARIANT InRange
INVARIANT OneOwner
CHECK_DEADLOCK FALSE
