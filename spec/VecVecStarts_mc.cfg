SPECIFICATION Spec
CONSTANTS
  NV = 2
  MaxB = 3
  MaxLen = 2
INVARIANT Refines
INVARIANT NoSlack
CHECK_DEADLOCK FALSE
