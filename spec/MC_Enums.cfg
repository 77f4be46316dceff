SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Identity Unambiguous ByName NoSuchShape Arity InList Observe
