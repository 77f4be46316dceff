SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Total WholeIsRead Truncated PumpVerdict CutAtEnd NotBefore PumpLinear Observe
