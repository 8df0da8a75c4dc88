SPECIFICATION Spec
INVARIANTS Causal Bounded
CHECK_DEADLOCK FALSE
CONSTANTS Nodes = {1, 2, 3} Readings = {1, 2, 3} Events = 4 Kinds = {"tick", "recv", "merge"}
