SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Denotes Observe
