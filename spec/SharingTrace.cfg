SPECIFICATION TraceSpec
CONSTANTS
  Threads = {1, 2, 3, 4}
  Buffers = {1, 2, 3}
  Texts = {0, 1, 2, 3, 4, 5, 6, 7}
  Questions = {1, 2, 3, 4, 5, 6, 7, 8}
  Impl = "pure"
  None = None
  MaxSteps = 60
INVARIANTS Borrowed
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
