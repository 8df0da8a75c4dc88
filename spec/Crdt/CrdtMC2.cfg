SPECIFICATION Spec
CONSTANTS Ops = 6
 Kinds = {"pnc", "lww", "mv", "aw", "rga"}
INVARIANTS Means Laws OneOrder
PROPERTY Where
CHECK_DEADLOCK FALSE
