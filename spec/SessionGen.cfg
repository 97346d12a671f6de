SPECIFICATION GenSpec
CONSTANTS
  MaxEvents = 30
INVARIANTS AllWellFormed NoDuplicateKeys CursorsOk
CHECK_DEADLOCK FALSE
