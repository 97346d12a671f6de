SPECIFICATION Spec
CONSTANTS
  Kinds = {"list", "tagged", "extensions"}
  Sizes = {0, 1, 2, 3, 4, 5, 6}
  Extra = 3
  Saturate = TRUE
INVARIANTS NoWrap OnItem AExact
PROPERTIES Refines
CHECK_DEADLOCK FALSE
