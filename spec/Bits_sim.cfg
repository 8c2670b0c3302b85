SPECIFICATION SimSpec
CONSTANTS
  Sizes = {0, 1, 63, 64, 65, 70, 127, 128, 129, 200}
  Fixed = FALSE
  Depth = 50
CHECK_DEADLOCK FALSE
