SPECIFICATION FullSpec
CONSTANTS
  Cells = 1
  Lists = 1
  Maps = 1
  Multis = 0
  Bits = 0
  Codes = 1
  Keys = 1
  MaxLen = 2
  MaxBits = 1
  Modes = 1
  Depth = 1000
  Every = 2
  AltModes = {2, 5}
  Sampled = FALSE
  Moves = 13
  Phase = 1000
VIEW View
INVARIANT TypeOK
PROPERTIES Frame Faithful
CHECK_DEADLOCK FALSE
