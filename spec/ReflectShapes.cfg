SPECIFICATION Spec
CONSTANTS
  Plan = "arity"
  Big = FALSE
INVARIANT Sane
CHECK_DEADLOCK FALSE
