SPECIFICATION Spec
CONSTANTS
  MaxItems = 2
  MaxEntries = 4
  C = 1
INVARIANT Refines
INVARIANT Exact
INVARIANT Balanced
INVARIANT Deletable
CHECK_DEADLOCK FALSE
