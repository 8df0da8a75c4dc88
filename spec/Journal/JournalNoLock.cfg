SPECIFICATION Spec
CONSTANTS Tasks = {u1, u2, u3, c1}
 Compactors = {c1}
 HoldLock = FALSE
 CutTail = TRUE
 Crashes = 1
INVARIANT Durable
CHECK_DEADLOCK FALSE
