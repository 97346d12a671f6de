SPECIFICATION Spec
CONSTANTS
  MaxSubtags = 3
  LastBySlice = FALSE
  PrivateEarly = TRUE
INVARIANTS NoPanic InBounds Agrees
PROPERTIES Progress Terminates
CHECK_DEADLOCK FALSE
