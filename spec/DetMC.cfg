SPECIFICATION Spec
CONSTANTS
 Leak = FALSE
 MaxCalls = 6
INVARIANT Consistent
CHECK_DEADLOCK FALSE
