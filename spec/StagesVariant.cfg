SPECIFICATION Spec
CONSTANT Variant = "variant-length"
INVARIANTS SameLanguage SamePrefix SameSection Greedy
CHECK_DEADLOCK FALSE
