SPECIFICATION Spec
CONSTANT Variant = "region-in-language"
INVARIANTS SameLanguage SamePrefix SameSection Greedy
CHECK_DEADLOCK FALSE
