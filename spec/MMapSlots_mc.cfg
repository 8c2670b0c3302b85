SPECIFICATION Spec
CONSTANTS
  NK = 2
  MaxSize = 3
  MaxData = 8
CONSTRAINT Bound
INVARIANT Refines
INVARIANT Disjoint
INVARIANT Fits
CHECK_DEADLOCK FALSE
