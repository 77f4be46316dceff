SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Identity ByIndex Short Behind Observe
