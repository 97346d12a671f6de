SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Buffers = {1, 2}
  Texts = {0, 1, 2, 3}
  Questions = {1, 2}
  Impl = "pure"
  None = None
  MaxSteps = 40
INVARIANTS OnlyTheText RightAnswer Borrowed
PROPERTY BorrowKeeps
VIEW View
CHECK_DEADLOCK FALSE
