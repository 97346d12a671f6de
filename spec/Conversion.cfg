SPECIFICATION Spec
CONSTANTS
  MaxHops = 6
INVARIANTS TextKept OwnedLives ModesOk
PROPERTIES BorrowKeepsBuffer
CHECK_DEADLOCK FALSE
