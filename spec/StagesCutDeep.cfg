SPECIFICATION Spec
CONSTANTS
  Variant = "crate"
  Shapes <- AllShapes
  MaxSubtags = 6
INVARIANTS SameList SameCut
CHECK_DEADLOCK FALSE
