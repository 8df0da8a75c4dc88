CONSTANTS Careful = TRUE MaxEdges = 4
SPECIFICATION Spec
INVARIANTS DepthRight InductionRight OrderRight
CHECK_DEADLOCK FALSE
