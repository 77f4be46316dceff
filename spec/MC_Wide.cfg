SPECIFICATION Spec
INVARIANTS Genuine Counted Ordered Observe
CHECK_DEADLOCK FALSE
