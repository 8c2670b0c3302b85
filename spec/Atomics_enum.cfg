SPECIFICATION EmitSpec
CONSTANTS
  Mode = "cell"
  NT = 2
  MaxOps = 2
  MaxTotal = 4
  Vals = {0, 1, 2}
  Sample = 0
CHECK_DEADLOCK FALSE
