SPECIFICATION Spec
INVARIANTS Causal Bounded
CHECK_DEADLOCK FALSE
CONSTANTS Nodes = {1, 2} Readings = {1, 2} Events = 4 Kinds = {"tick", "recv", "merge"}
