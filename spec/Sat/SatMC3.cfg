CONSTANTS Vars = {1,2,3}
 Most = 2
 Careful = TRUE
SPECIFICATION Spec
INVARIANTS Decides RupSound PrSound
CHECK_DEADLOCK FALSE
