CONSTANTS Whole = TRUE
SPECIFICATION Spec
INVARIANTS StepwiseRight PredicateRight KindRight NoObject
CHECK_DEADLOCK FALSE
