SPECIFICATION Spec
CONSTANTS
  PrefixFirst = TRUE
  MaxLen = 2
  Alphabet <- Letters5
INVARIANTS EqIsFold Lockstep Antisymmetric Transitive FirstDiffDecides
CHECK_DEADLOCK FALSE
