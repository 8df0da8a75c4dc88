SPECIFICATION Spec
CONSTANTS Tasks = {u1, u2, u3, c1}
 Compactors = {c1}
 HoldLock = TRUE
 CutTail = TRUE
 Crashes = 3
INVARIANT Durable
CHECK_DEADLOCK FALSE
