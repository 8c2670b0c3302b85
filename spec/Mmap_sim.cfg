SPECIFICATION SimSpec
CONSTANTS
  Depth = 40
  Sizes = {0, 1, 7, 512, 4095, 4096, 4097, 5000, 8192, 9000, 20000, 70000}
INVARIANT InRange
INVARIANT OneOwner
CHECK_DEADLOCK FALSE
