SPECIFICATION Spec
CONSTANTS
  Vocabulary <- Iterating
  Kinds = {"parse", "iter", "next", "items", "part", "nth", "rest"}
  MaxEvents = 5
  MaxVals = 4
  MaxIts = 2
  MaxCols = 0
VIEW View
INVARIANTS LastWellFormed NoDuplicateKeys CursorsOk HashIsFunction OrdersAgree EqIsEquivalence FoundAgain SomeResult
PROPERTY ValuesStay
CHECK_DEADLOCK FALSE
