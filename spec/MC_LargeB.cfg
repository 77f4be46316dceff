SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT First <- FirstOf
INVARIANTS Same Laid Observe
