SPECIFICATION Spec
CONSTANT Ops = 3
INVARIANT Rules
CHECK_DEADLOCK FALSE
