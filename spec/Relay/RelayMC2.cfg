SPECIFICATION Spec
CONSTANT Ops = 4
INVARIANT Rules
CHECK_DEADLOCK FALSE
