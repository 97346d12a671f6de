SPECIFICATION Spec
CONSTANTS
  Pieces <- CharPieces
  MaxPieces = 6
INVARIANTS SameLanguage UniqueCut SameParts KindTotal Lossless Closed Lookup CaseBlind
CHECK_DEADLOCK FALSE
