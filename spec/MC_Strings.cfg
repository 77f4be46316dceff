SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Denotes Scalars Survives BlockMeans Observe
