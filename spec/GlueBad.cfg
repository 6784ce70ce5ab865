SPECIFICATION Spec
CONSTANTS Room = 2
N = 4
L = 5
Eager = FALSE
INVARIANTS Whole
PROPERTY Gets
