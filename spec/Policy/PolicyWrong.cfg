CONSTANTS Whole = FALSE
SPECIFICATION Spec
INVARIANTS StepwiseRight PredicateRight KindRight NoObject
CHECK_DEADLOCK FALSE
