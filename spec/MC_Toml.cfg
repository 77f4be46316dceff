SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Denotes StrDenotes EofEndsLine Observe
