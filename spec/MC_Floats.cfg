SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Rule Placed Monotone Observe
