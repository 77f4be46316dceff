SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Total PrefixesFail Faithful AtItem Observe
