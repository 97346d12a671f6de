SPECIFICATION Spec
CONSTANTS
  PrefixFirst = TRUE
  Variant = "crate"
INVARIANTS Consistent Antisymmetric Transitive EqualIsTransitive Interchangeable
PROPERTY Decided
CHECK_DEADLOCK FALSE
