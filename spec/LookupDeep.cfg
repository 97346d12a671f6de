SPECIFICATION Spec
CONSTANTS
  MaxItems = 4
  CaseSensitive = FALSE
  NoDash = FALSE
INVARIANTS TypeOK Right SubtagsRight
PROPERTIES Ends
CHECK_DEADLOCK FALSE
