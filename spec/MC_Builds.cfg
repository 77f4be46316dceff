SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Grows Observe
