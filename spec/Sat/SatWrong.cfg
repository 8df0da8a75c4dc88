CONSTANTS Vars = {1,2}
 Most = 3
 Careful = FALSE
SPECIFICATION Spec
INVARIANTS Decides RupSound PrSound
CHECK_DEADLOCK FALSE
