SPECIFICATION Spec
CONSTANT Steps = 5
INVARIANT Confined
CHECK_DEADLOCK FALSE
