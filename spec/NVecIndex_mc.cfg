SPECIFICATION Spec
CONSTANTS
  MaxTop = 3
INVARIANT Refines
CHECK_DEADLOCK FALSE
