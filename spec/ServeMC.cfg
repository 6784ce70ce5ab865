SPECIFICATION Spec
CONSTANTS MarkServed = TRUE
 MarkOther = TRUE
 Mode = "on"
INVARIANTS Safe Useful
CHECK_DEADLOCK FALSE
