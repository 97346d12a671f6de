SPECIFICATION Spec
CONSTANTS
  Pools <- DumpPools
  MaxMany = 2
  Ordered = TRUE
INVARIANTS Accepted GivesBack Lossless
CHECK_DEADLOCK FALSE
