SPECIFICATION Spec
CONSTANTS
  N = 6
  MaxV = 6
  Shape = "two"
  Converts = TRUE
  Guard = "disjoint"
INVARIANTS Safe InBuffer Bounded
CHECK_DEADLOCK FALSE
