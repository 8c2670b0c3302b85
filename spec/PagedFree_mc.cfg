SPECIFICATION Spec
CONSTANTS
  MaxPages = 3
  MaxSize = 3
  MaxData = 12
CONSTRAINT Bound
INVARIANT Refines
INVARIANT Disjoint
CHECK_DEADLOCK FALSE
