SPECIFICATION Spec
CONSTANTS
  Cells = 4
  Lists = 2
  Maps = 0
  Multis = 0
  Bits = 0
  Codes = 7
  Keys = 12
  MaxLen = 20
  MaxBits = 200
  Modes = 13
  Depth = 40
  Every = 2
  AltModes = {2, 5}
  Sampled = TRUE
  Moves = 13
  Phase = 10
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
