SPECIFICATION Spec
INVARIANT Unambiguous
PROPERTY OrigStable
CHECK_DEADLOCK TRUE
