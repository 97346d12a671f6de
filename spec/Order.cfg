SPECIFICATION Spec
CONSTANTS
  PrefixFirst = FALSE
  Variant = "crate"
INVARIANTS Consistent Antisymmetric Transitive EqualIsTransitive Interchangeable
PROPERTY Decided
CHECK_DEADLOCK FALSE
