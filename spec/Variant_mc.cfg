SPECIFICATION McSpec
VIEW View_
INVARIANTS TypeOK Total Mirror
CHECK_DEADLOCK FALSE
CONSTANTS
  NAlt = 4
  NV = 2
  Boom = 1
  Images = TRUE
  Depth = 0
