SPECIFICATION Spec
INVARIANTS Wrong
CHECK_DEADLOCK FALSE
CONSTANTS Nodes = {1, 2} Readings = {1, 2} Events = 3 Kinds = {"tick", "recv"}
