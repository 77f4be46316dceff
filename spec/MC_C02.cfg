SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS IsBytes SizeLaw Recovered Canonical Observe
