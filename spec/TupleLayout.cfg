SPECIFICATION Spec
INVARIANTS Aligned Disjoint Inside
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
