SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Buffers = {1, 2}
  Texts = {0, 1, 2}
  Questions = {1}
  Impl = "torn"
  None = None
  MaxSteps = 9
INVARIANTS OnlyTheText RightAnswer Borrowed
PROPERTY BorrowKeeps
VIEW View
CHECK_DEADLOCK FALSE
