SPECIFICATION Spec
CONSTANTS
  MaxN = 7
  MaxK = 3
  Extra = 3
INVARIANTS TypeOK Exact AllYielded NthIsNext
PROPERTIES Fused Exhausts
CHECK_DEADLOCK FALSE
