SPECIFICATION Spec
CONSTANTS MarkServed = TRUE
 MarkOther = FALSE
 Mode = "on"
INVARIANTS Safe Useful
CHECK_DEADLOCK FALSE
