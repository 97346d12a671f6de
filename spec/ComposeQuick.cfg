SPECIFICATION Spec
CONSTANTS
  Pools <- QuickPools
  MaxMany = 2
  Ordered = TRUE
INVARIANTS Accepted GivesBack Lossless
CHECK_DEADLOCK FALSE
