\* N must be odd: letters 1..N then stay inside the even rank N + 1
CONSTANTS N = 5
 L = 3
 M = 3
SPECIFICATION Spec
INVARIANTS Bijective
CHECK_DEADLOCK FALSE
