SPECIFICATION Spec
CONSTANTS
  Pools <- ThePools
  MaxMany = 2
  Ordered = TRUE
INVARIANTS Accepted GivesBack Lossless
CHECK_DEADLOCK FALSE
