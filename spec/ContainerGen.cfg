INIT Init
NEXT Next
INVARIANTS Agree PrefixFree
CHECK_DEADLOCK FALSE
