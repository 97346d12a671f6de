SPECIFICATION Spec
CONSTANTS
  PrefixFirst = FALSE
  Variant = "no-fold"
INVARIANTS Consistent Antisymmetric Transitive EqualIsTransitive Interchangeable
PROPERTY Decided
CHECK_DEADLOCK FALSE
