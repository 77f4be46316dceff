SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Rule Ordered Observe
