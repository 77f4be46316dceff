SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS FieldRules NullIsAbsent Observe
