CONSTANTS Vars = {1,2}
 Most = 9
 Careful = TRUE
SPECIFICATION Spec
INVARIANTS Decides RupSound PrSound
CHECK_DEADLOCK FALSE
