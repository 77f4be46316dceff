SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip ExactConsumption Local Observe
