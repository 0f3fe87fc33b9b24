CONSTANTS N = 3
 L = 3
 M = 3
SPECIFICATION Spec
INVARIANTS Bijective
CHECK_DEADLOCK FALSE
