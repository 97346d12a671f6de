SPECIFICATION Spec
CONSTANTS
  MaxSubtags = 4
  LastBySlice = FALSE
  PrivateEarly = FALSE
INVARIANTS NoPanic InBounds Agrees
PROPERTIES Progress Terminates
CHECK_DEADLOCK FALSE
