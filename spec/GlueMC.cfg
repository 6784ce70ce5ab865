SPECIFICATION Spec
CONSTANTS Room = 2
N = 4
L = 5
Eager = TRUE
INVARIANTS Taken Whole
PROPERTY Gets
