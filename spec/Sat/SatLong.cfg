CONSTANTS Vars = {1,2,3}
 Most = 3
 Careful = TRUE
SPECIFICATION Spec
INVARIANTS Decides RupSound PrSound
CHECK_DEADLOCK FALSE
