SPECIFICATION Spec
CONSTANTS
  PrefixFirst = FALSE
  Variant = "first-three"
INVARIANTS Consistent Antisymmetric Transitive EqualIsTransitive Interchangeable
PROPERTY Decided
CHECK_DEADLOCK FALSE
