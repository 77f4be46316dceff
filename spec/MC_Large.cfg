SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT First <- FirstOf
INVARIANTS Same Observe
