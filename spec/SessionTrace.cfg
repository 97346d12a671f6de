SPECIFICATION TraceSpec
INVARIANTS NoDuplicateKeys CursorsOk
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
