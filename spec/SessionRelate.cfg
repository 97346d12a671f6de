SPECIFICATION Spec
CONSTANTS
  Vocabulary <- Collecting
  Kinds = {"parse", "eq", "cmp", "hash", "conv", "sort"}
  MaxEvents = 6
  MaxVals = 3
  MaxIts = 0
  MaxCols = 0
VIEW View
INVARIANTS LastWellFormed NoDuplicateKeys CursorsOk HashIsFunction OrdersAgree EqIsEquivalence FoundAgain SomeResult
PROPERTY ValuesStay
CHECK_DEADLOCK FALSE
