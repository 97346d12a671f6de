SPECIFICATION Spec
CONSTANTS
  PrefixFirst = FALSE
  Variant = "prefix-by-next"
INVARIANTS Consistent Antisymmetric Transitive EqualIsTransitive Interchangeable
PROPERTY Decided
CHECK_DEADLOCK FALSE
