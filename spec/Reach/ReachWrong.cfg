CONSTANTS Careful = FALSE MaxEdges = 3
SPECIFICATION Spec
INVARIANTS DepthRight InductionRight OrderRight
CHECK_DEADLOCK FALSE
