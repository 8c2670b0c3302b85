SPECIFICATION AltSpec
CONSTANTS
  Cells = 4
  Lists = 2
  Maps = 0
  Multis = 0
  Bits = 0
  Codes = 2
  Keys = 2
  MaxLen = 2
  MaxBits = 1
  Modes = 13
  Depth = 4
  Every = 2
  AltModes = {2, 5}
  Sampled = FALSE
  Moves = 13
  Phase = 1000
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
