SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OnePlace Known NothingKept InOrder Observe
