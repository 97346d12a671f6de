SPECIFICATION Spec
CONSTANTS
  MaxItems = 3
  CaseSensitive = TRUE
  NoDash = FALSE
INVARIANTS TypeOK Right SubtagsRight
PROPERTIES Ends
CHECK_DEADLOCK FALSE
