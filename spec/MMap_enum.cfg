SPECIFICATION EnumSpec
CONSTANTS
  NV = 3
  MaxKeys = 3
  MaxLen = 8
  MaxBucket = 1048576
  Depth = 4
  Phase = 20
PROPERTY Frame
CHECK_DEADLOCK FALSE
