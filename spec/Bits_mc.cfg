SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 3}
  Fixed = FALSE
  Depth = 0
VIEW View
INVARIANT InRange
INVARIANT DeMorgan
INVARIANT Shifts
INVARIANT TotalOrder
CHECK_DEADLOCK FALSE
