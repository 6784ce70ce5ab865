SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 5
 EarlyWord = FALSE
