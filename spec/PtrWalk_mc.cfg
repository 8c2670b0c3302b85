SPECIFICATION Spec
INVARIANTS Once Complete Kept
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
