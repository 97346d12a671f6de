SPECIFICATION Spec
CONSTANTS
  Classes = 3
  Spellings = 2
  Values = {1, 2}
INVARIANTS OneEntryPerClass
PROPERTIES KeepsFirst
CHECK_DEADLOCK FALSE
