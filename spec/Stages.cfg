SPECIFICATION Spec
CONSTANT Variant = "crate"
INVARIANTS SameLanguage SamePrefix SameSection Greedy
CHECK_DEADLOCK FALSE
