SPECIFICATION Spec
CONSTANTS
  PrefixFirst = FALSE
  Variant = "one-side"
INVARIANTS Consistent Antisymmetric Transitive EqualIsTransitive Interchangeable
PROPERTY Decided
CHECK_DEADLOCK FALSE
