SPECIFICATION Spec
CONSTANTS MarkServed = TRUE
 MarkOther = TRUE
 Mode = "off"
INVARIANTS Safe Useful
CHECK_DEADLOCK FALSE
