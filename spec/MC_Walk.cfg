SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NeverLost Fifo AtEnd Alone Observe
