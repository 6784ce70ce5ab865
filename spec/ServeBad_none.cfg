SPECIFICATION Spec
CONSTANTS MarkServed = FALSE
 MarkOther = FALSE
 Mode = "on"
INVARIANTS Safe Useful
CHECK_DEADLOCK FALSE
