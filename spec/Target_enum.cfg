SPECIFICATION EnumSpec
CONSTANTS
  Depth = 5
  Sizes = {0, 1, 3, 8}
  Aligns = {0, 1, 2, 8, 64}
  Widths = {1, 8}
  MaxSize = 100000
  Buffer = TRUE
  Chunks = {0, 1}
INVARIANTS InBounds Cover
PROPERTY Grow
CHECK_DEADLOCK FALSE
