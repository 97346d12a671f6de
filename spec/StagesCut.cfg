SPECIFICATION Spec
CONSTANTS
  Variant = "crate"
  Shapes <- AllShapes
  MaxSubtags = 4
INVARIANTS SameList SameCut
CHECK_DEADLOCK FALSE
