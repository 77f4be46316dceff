SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS PrefixKept NeverLost Fifo Exact Between Observe
