SPECIFICATION Spec
CONSTANTS
  Vocabulary <- Collecting
  Kinds = {"parse", "col", "ins", "del", "get"}
  MaxEvents = 6
  MaxVals = 3
  MaxIts = 0
  MaxCols = 1
VIEW View
INVARIANTS LastWellFormed NoDuplicateKeys CursorsOk HashIsFunction OrdersAgree EqIsEquivalence FoundAgain SomeResult
PROPERTY ValuesStay
CHECK_DEADLOCK FALSE
