SPECIFICATION Spec
INVARIANTS PiecewiseIsWhole WriteInverts
CHECK_DEADLOCK FALSE
