SPECIFICATION Spec
CONSTANT Variant = "crate"
INVARIANTS Shape OneLeaf Starts Bounded NoEmpty
CHECK_DEADLOCK FALSE
