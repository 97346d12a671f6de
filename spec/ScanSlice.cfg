SPECIFICATION Spec
CONSTANTS
  MaxSubtags = 3
  LastBySlice = TRUE
  PrivateEarly = FALSE
INVARIANTS NoPanic InBounds Agrees
PROPERTIES Progress Terminates
CHECK_DEADLOCK FALSE
