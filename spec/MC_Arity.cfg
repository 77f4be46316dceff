SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Genuine Counted Ordered Separated Observe
