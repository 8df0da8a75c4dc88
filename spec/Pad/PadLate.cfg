SPECIFICATION Spec
CONSTANTS Size = 9
 Key = 2
 MaxLen = 2
 MaxRec = 3
 Early = FALSE
INVARIANT NeverTwice
INVARIANT InPad
INVARIANT OnceEach
CHECK_DEADLOCK FALSE
