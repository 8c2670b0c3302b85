SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
INVARIANTS Total Strict
CHECK_DEADLOCK FALSE
