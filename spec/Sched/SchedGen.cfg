SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 24
