SPECIFICATION Spec
CONSTANTS
  PrefixFirst = FALSE
  MaxLen = 2
  Alphabet <- Letters5
INVARIANTS EqIsFold Lockstep Antisymmetric Transitive FirstDiffDecides
CHECK_DEADLOCK FALSE
