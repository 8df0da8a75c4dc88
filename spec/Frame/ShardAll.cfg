SPECIFICATION Spec
CONSTANT MaxN = 6
CHECK_DEADLOCK FALSE
