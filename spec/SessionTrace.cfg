SPECIFICATION Spec
INVARIANTS Inv Done
CHECK_DEADLOCK FALSE
