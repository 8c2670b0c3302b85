SPECIFICATION SimSpec
CONSTANTS
  Depth = 40
  Sizes = {0, 1, 7, 8, 9, 4095, 4096, 8191, 8192, 8193, 16384, 70000}
  Aligns = {0, 1, 2, 4, 8, 16, 32, 64, 4096}
  Widths = {1, 2, 3, 4, 8, 16}
  MaxSize = 1300000
  Buffer = TRUE
  Chunks = {0, 1, 2, 3, 7, 8, 8191, 8192, 8193}
INVARIANTS InBounds
CHECK_DEADLOCK FALSE
