SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Kept Stable Unique Observe
