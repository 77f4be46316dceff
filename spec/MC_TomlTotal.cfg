SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
INVARIANTS Total Unfinished PumpVerdict PumpLinear TObserve
