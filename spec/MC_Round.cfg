SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip Stable Observe
