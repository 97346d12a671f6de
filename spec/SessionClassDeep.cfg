SPECIFICATION Spec
CONSTANTS
  Vocabulary <- Classing
  Kinds = {"parse", "kind", "asgf", "eq", "valid", "unchecked"}
  MaxEvents = 6
  MaxVals = 5
  MaxIts = 0
  MaxCols = 0
VIEW View
INVARIANTS LastWellFormed NoDuplicateKeys CursorsOk HashIsFunction OrdersAgree EqIsEquivalence FoundAgain SomeResult
PROPERTY ValuesStay
CHECK_DEADLOCK FALSE
