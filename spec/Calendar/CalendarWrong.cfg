SPECIFICATION Spec
INVARIANT Wrong
CHECK_DEADLOCK FALSE
CONSTANTS From = 10900 To = 12900
