SPECIFICATION Spec
CONSTANTS
  Kinds = {"list"}
  Sizes = {1, 2}
  Extra = 3
  Saturate = FALSE
INVARIANTS NoWrap OnItem AExact
PROPERTIES Refines
CHECK_DEADLOCK FALSE
