SPECIFICATION Spec
CONSTANTS Tasks = {u1, u2, u3, c1}
 Compactors = {c1}
 HoldLock = TRUE
 CutTail = FALSE
 Crashes = 2
INVARIANT Durable
CHECK_DEADLOCK FALSE
