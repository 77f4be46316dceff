SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Exact RoundTrip Observe
