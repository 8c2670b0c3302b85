SPECIFICATION SimSpec
CONSTANTS
  NV = 99
  MaxKeys = 7
  MaxLen = 20
  MaxBucket = 1048576
  Depth = 60
  Phase = 30
CHECK_DEADLOCK FALSE
