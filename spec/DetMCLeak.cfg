SPECIFICATION Spec
CONSTANTS
 Leak = TRUE
 MaxCalls = 6
INVARIANT Consistent
CHECK_DEADLOCK FALSE
