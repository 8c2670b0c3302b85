SPECIFICATION SimSpec
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
CONSTANTS
  NAlt = 4
  NV = 4
  Boom = 1
  Images = FALSE
  Depth = 60
