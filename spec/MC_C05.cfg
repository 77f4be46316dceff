SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS WellFormed Denotes Agree Observe
