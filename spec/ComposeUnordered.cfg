\* components in any order do not make a tag: TLC has to object
SPECIFICATION Spec
CONSTANTS
  Pools <- QuickPools
  MaxMany = 1
  Ordered = FALSE
INVARIANTS Accepted GivesBack Lossless
CHECK_DEADLOCK FALSE
