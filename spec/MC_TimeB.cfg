SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Exact Short Same Observe
