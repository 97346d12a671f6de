SPECIFICATION Spec
INVARIANTS Recognised IsATag RegularIsNormal LanguageOk KindOk
CHECK_DEADLOCK FALSE
