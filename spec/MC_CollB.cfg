SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Kept Counted Count Observe
