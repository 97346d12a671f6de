SPECIFICATION Spec
CONSTANT Variant = "script-after-region"
INVARIANTS SameLanguage SamePrefix SameSection Greedy
CHECK_DEADLOCK FALSE
