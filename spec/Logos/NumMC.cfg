SPECIFICATION Spec
INVARIANTS Digits Laws Division Text
CHECK_DEADLOCK FALSE
