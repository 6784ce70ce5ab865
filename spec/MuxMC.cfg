SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 4
 EarlyWord = FALSE
