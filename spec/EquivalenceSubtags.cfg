SPECIFICATION Spec
CONSTANTS
  Pieces <- SubtagPieces
  MaxPieces = 3
INVARIANTS SameLanguage UniqueCut SameParts KindTotal Lossless Closed Lookup CaseBlind
CHECK_DEADLOCK FALSE
