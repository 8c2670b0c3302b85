SPECIFICATION EnumSpec
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
CONSTANTS
  NAlt = 4
  NV = 2
  Boom = 1
  Images = FALSE
  Depth = 3
