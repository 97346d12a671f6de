SPECIFICATION Spec
CONSTANTS
  MaxItems = 3
  CaseSensitive = FALSE
  NoDash = TRUE
INVARIANTS TypeOK Right SubtagsRight
PROPERTIES Ends
CHECK_DEADLOCK FALSE
