SPECIFICATION Spec
INVARIANTS NoOther NoEmptySubtag EmptyOnlyLists
CHECK_DEADLOCK FALSE
