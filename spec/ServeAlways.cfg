SPECIFICATION Spec
CONSTANTS MarkServed = TRUE
 MarkOther = TRUE
 Mode = "always"
INVARIANTS Safe Useful
CHECK_DEADLOCK FALSE
