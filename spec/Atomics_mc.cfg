SPECIFICATION Spec
CONSTANTS
  Mode = "cell"
  NT = 2
  MaxOps = 2
  MaxTotal = 4
  Vals = {0, 1, 2}
  Sample = 0
INVARIANTS Permitted Unique Smallest Largest
CHECK_DEADLOCK FALSE
