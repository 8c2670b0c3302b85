SPECIFICATION Spec
CONSTANTS
  W = 3
  MaxSize = 7
INVARIANT Refines
INVARIANT Readers
CHECK_DEADLOCK FALSE
